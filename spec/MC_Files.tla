------------------------------ MODULE MC_Files ------------------------------
EXTENDS Files, TLC, Json
CONSTANTS Mode, NFiles
VARIABLES a, k, op

W(x, j, len) == [i \in 1..len |-> 5 * x + ((3 * i + 7 * j) % 11) - 4]
Tr(x, y, st, d, dt, len, j) == [x |-> x, y |-> y, st |-> st, delay |-> d, dt |-> dt, w |-> W(x, j, len)]
Maps == {Id, [a |-> -1, b |-> 50000], [a |-> 2, b |-> -30000]}

\* one file, every header combination
HeaderFiles ==
  {[fmt |-> f, scal |-> s, units |-> u, sx |-> sx, sy |-> 3,
    tr |-> <<Tr(x1, 4, st, d, 1000, 3, 0), Tr(x2, y2, st, d, 1000, 3, 1)>>] :
      f \in Fmts, s \in {-10000, -1000, -100, -10, -1, 0, 1, 10}, u \in {0, 1, 2}, sx \in {-7},
      st \in {0, 1, 3}, d \in {-2, 0, 1}, x1 \in {11}, x2 \in {-6}, y2 \in {-9}}
OkHeader(f) == /\ f.fmt = "SEG2" => (f.scal = 1 /\ f.units = 1 /\ f.tr[1].st > 0)
               /\ f.units = 2 => f.tr[1].delay = 0
               /\ f.tr[1].delay > 0 => f.scal = -10
\* several files of three receivers, in every order of traces
Perms == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
Xs == <<20, 50, 70>>
PermFile(p, j, st, bad) ==
  [fmt |-> "SU", scal |-> -10, units |-> 1, sx |-> IF bad = "src" THEN -30 ELSE -20, sy |-> IF bad = "sy" THEN 1 ELSE 0,
   tr |-> [i \in 1..(IF bad = "count" THEN 2 ELSE 3) |->
             Tr(IF bad = "pos" /\ p[i] = 3 THEN 71 ELSE Xs[p[i]], IF bad = "y" THEN 2 ELSE 0, st,
                IF bad = "delay" THEN -4 ELSE 0, IF bad = "dt" THEN 2000 ELSE 1000, IF bad = "len" THEN 4 ELSE 3, j)]]
Bads == {"none", "src", "sy", "count", "pos", "y", "delay", "dt", "len"}
FileLists == {<<PermFile(p, 1, 2, "none"), PermFile(q, 2, st, b)>> : p \in Perms, q \in Perms, st \in {1, 3}, b \in {"none"}}
             \cup {<<PermFile(<<1,2,3>>, 1, 1, "none"), PermFile(<<3,1,2>>, 2, 1, "none"), PermFile(q, 5, 4, b)>> : q \in Perms, b \in Bads}
             \cup {<<PermFile(<<2,1,3>>, 1, 1, b), PermFile(<<3,1,2>>, 2, 1, "none")>> : b \in Bads}
             \cup {<<PermFile(<<2,1,3>>, 1, 1, b)>> : b \in Bads}

Init == a = NoArray /\ k = 0 /\ op = [name |-> "init"]
Do1(fs, mx, my) == LET o == Read(fs, mx, my) IN
   /\ a' = o.a /\ op' = [name |-> "read", files |-> fs, mx |-> mx, my |-> my, out |-> o.out] /\ k' = k + 1
ReadStep == /\ k = 0
            /\ \/ Mode = "headers" /\ \E f \in HeaderFiles, mx \in Maps, my \in Maps : OkHeader(f) /\ Do1(<<f>>, mx, my)
               \/ Mode = "stack" /\ \E fs \in FileLists, mx \in Maps : Do1(fs, mx, Id)
RoundStep == /\ a.r.kind = "array" /\ k = 1 /\ Representable(a) /\ Abs(a.src) < 1000000000
             /\ LET o == Read(<<Write(a)>>, Id, Id)
                IN /\ a' = o.a /\ op' = [name |-> "roundtrip", out |-> o.out] /\ k' = 2
Next == ReadStep \/ RoundStep
Spec == Init /\ [][Next]_<<a, k, op>>
View == <<a, k>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, a |-> a], o |-> op', q |-> [k |-> k', a |-> a']])>>)
InvRound == RoundTrip(a)
PropRead == [][op'.name = "read" => /\ StackExact2(op'.files, op'.mx, op'.my)
                                    /\ OrderFree(op'.files, op'.mx, op'.my)
                                    /\ HeadersExact(op'.files[1], op'.mx, op'.my)]_<<a, k, op>>
PropRound == [][op'.name = "roundtrip" => op'.out = "ok" /\ a' = a]_<<a, k, op>>
=============================================================================
