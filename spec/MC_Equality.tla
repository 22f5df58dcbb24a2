---------------------------- MODULE MC_Equality ----------------------------
(* All pairs among one object of each kind and everything that differs from  *)
(* it in exactly one respect.                                                *)
EXTENDS Equality, TLC, Json, FiniteSets
VARIABLES k, a, b, op
Obj(kd, w, n, t, d, p, s) == [kind |-> kd, nano |-> 0, w |-> w, n |-> n, t0 |-> t, dt |-> d, pos |-> p, src |-> s, sets |-> << >>]
Pk(kd, ss) == [Obj(kd, << >>, 0, 0, 0, << >>, << >>) EXCEPT !.sets = ss]
Undef == -999999999
Set(id, as, f, v, x, val) == [id |-> id, attrs |-> as, valid |-> val,
                              data |-> [k_ \in {as[i] : i \in DOMAIN as} |-> IF k_ = "frequency" THEN f ELSE IF k_ = "velocity" THEN v ELSE x]]
FV == <<"frequency", "velocity">>
P1 == Set("a", Append(FV, "azimuth"), <<2, 3, 3>>, <<10, 40, 50>>, <<7, 8, Undef>>, <<1, 1, 1>>)
P2 == Set("b", FV, <<2, 4>>, <<10, 40>>, << >>, <<1, 1>>)
P3 == Set("c", FV, <<5>>, <<6>>, << >>, <<1>>)
Vals(s) == UNION {{[s EXCEPT !.data[x][i] = @ + 1] : i \in {j \in DOMAIN s.valid : s.data[x][j] # Undef}} : x \in Attrs(s)}
Gone(s) == {[s EXCEPT !.valid[i] = 0] : i \in DOMAIN s.valid}
Last(s) == [s EXCEPT !.valid = SubSeq(@, 1, Len(@) - 1), !.data = [x \in DOMAIN @ |-> SubSeq(@[x], 1, Len(@[x]) - 1)]]
SetVars(s) == {s, [s EXCEPT !.id = "z"], Last(s)} \cup Vals(s) \cup Gone(s)
Sets1 == SetVars(P1) \cup UNION {Gone(s) : s \in Vals(P1)}
         \cup {[P1 EXCEPT !.attrs = <<"azimuth", "velocity", "frequency">>],
               Set("a", FV, <<2, 3, 3>>, <<10, 40, 50>>, << >>, <<1, 1, 1>>),
               Set("a", Append(FV, "power"), <<2, 3, 3>>, <<10, 40, 50>>, <<7, 8, Undef>>, <<1, 1, 1>>),
               Set("a", Append(FV, "quality"), <<2, 3, 3>>, <<10, 40, 50>>, <<7, 8, Undef>>, <<1, 1, 1>>),
               Set("a", Append(FV, "quality"), <<2, 3, 3>>, <<10, 40, 50>>, <<7, 9, Undef>>, <<1, 1, 1>>),
               Set("a", Append(FV, "quality"), <<2, 3, 3>>, <<10, 40, 50>>, <<7, 9, Undef>>, <<1, 0, 1>>),
               [P1 EXCEPT !.data["azimuth"][3] = 9], [P1 EXCEPT !.data["azimuth"][2] = Undef]}
Suites == {<<P1>>, <<P2>>, <<P1, P2>>, <<P2, P1>>, <<P1, P2, P3>>, <<P1, P3>>, <<P3, P2>>, <<P1, P3, P2>>}
          \cup {<<P1, x>> : x \in SetVars(P2)} \cup {<<x, P2>> : x \in Gone(P1)}
T0 == Obj("ts", <<<<4, 0, -6>>>>, 2, -4, 1, << >>, << >>)
S0 == Obj("s1c", <<<<4, 0, -6>>>>, 2, -4, 1, <<<<0, 1, 2>>>>, << >>)
A0 == Obj("array", <<<<4, 0, -6>>, <<2, 2, -6>>>>, 2, -4, 1, <<<<0, 1, 2>>, <<3, 1, 2>>>>, <<-5, 0, 1>>)
U0 == Obj("source", << >>, 0, 0, 0, << >>, <<-5, 0, 1>>)
Rec(o) == {[o EXCEPT !.n = 1], [o EXCEPT !.t0 = 0], [o EXCEPT !.t0 = -8], [o EXCEPT !.dt = 2]}
Samples(o) == {[o EXCEPT !.w[j] = x] : j \in 1..Len(o.w), x \in {<<4, 0, -4>>, <<2, 0, -6>>, <<4, 2, -6>>}}
Lengths(o) == {[o EXCEPT !.w = [j \in 1..Len(o.w) |-> SubSeq(o.w[j], 1, 2)]], [o EXCEPT !.w = [j \in 1..Len(o.w) |-> Append(o.w[j], 0)]]}
Moves(o) == {[o EXCEPT !.pos[j][c] = @ + d] : j \in 1..Len(o.pos), c \in 1..3, d \in {1, -1}}
Sources(o) == {[o EXCEPT !.src[c] = @ + d] : c \in 1..3, d \in {1, -1}}
Fewer == [A0 EXCEPT !.w = <<A0.w[1]>>, !.pos = <<A0.pos[1]>>]
More == [A0 EXCEPT !.w = Append(A0.w, <<0, 0, 2>>), !.pos = Append(A0.pos, <<7, 1, 2>>)]
Others == {Obj("other", << >>, i, 0, 0, << >>, << >>) : i \in 0..4}
\* just alike and just not
Fine(o) == {[o EXCEPT !.nano = 1, !.w[1] = x] : x \in {<<1000000000, 0, 5>>, <<1000009000, 9, -4>>, <<1000000000, 12, 5>>, <<1000011000, 0, 5>>, <<1000000000, 0, 16>>}}
Class(c) == CASE c = "ts"  -> {T0} \cup Rec(T0) \cup Samples(T0) \cup Lengths(T0) \cup Fine(T0)
              [] c = "s1c" -> {S0} \cup Rec(S0) \cup Samples(S0) \cup Lengths(S0) \cup Moves(S0)
              [] c = "array" -> {A0, Fewer, More} \cup Rec(A0) \cup Samples(A0) \cup Lengths(A0) \cup Moves(A0) \cup Sources(A0)
              [] c = "peaks" -> {Pk("peaks", <<x>>) : x \in Sets1}
              [] c = "suite" -> {Pk("suite", x) : x \in Suites}
              [] OTHER -> {U0} \cup Sources(U0)
Objects == UNION {Class(c) : c \in Library} \cup Others
Bases == {T0, [T0 EXCEPT !.nano = 1, !.w[1] = <<1000000000, 0, 5>>], S0, A0, U0, Pk("peaks", <<P1>>), Pk("suite", <<P1>>)}
Init == /\ k = 0 /\ a \in Objects /\ b \in Objects /\ a.kind \in Library
        /\ a.kind = b.kind \/ a \in Bases \/ b \in Bases
        /\ op = [name |-> "init"]
Next == /\ k = 0 /\ k' = 1 /\ op' = [name |-> "equal", a |-> a, b |-> b, eq |-> Equal(a, b)] /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<k, a, b, op>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> 0], o |-> op', q |-> [k |-> 1]])>>)
InvSymmetric == Equal(a, b) = Equal(b, a)
InvReflexive == Equal(a, a)
InvOnlySame == a.nano = 0 /\ (a.sets = << >> \/ b.sets = << >>) => (Equal(a, b) = (a = b))
\* in equal sets equally many peaks can be seen
Count(v) == Len(Shown(v, v, 1))
InvVisible == Equal(a, b) => \A i \in DOMAIN a.sets : Count(a.sets[i].valid) = Count(b.sets[i].valid)
=============================================================================
