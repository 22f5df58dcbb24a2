------------------------------- MODULE MC_Max -------------------------------
(* Every file of up to MaxLines lines from a pool in which times and         *)
(* frequencies are written with shared digits.                               *)
EXTENDS MaxFile, TLC, Json
CONSTANTS MaxLines
VARIABLES lns, k, op
L(t, f, w, fv, vel, ok) == [t |-> t, f |-> f, w |-> w, v |-> <<fv, vel, 40, -4, 16, 4 * vel>>, ok |-> ok]
Pool == {L("7201", "1.5", "Rayleigh", 6, 1600, TRUE), L("7201", "105", "Rayleigh", 420, 800, TRUE), L("7201", "1.5", "Rayleigh", 6, 400, TRUE),
         L("201", "1.5", "Rayleigh", 6, 3200, TRUE), L("201", "1.5", "Rayleigh", 6, 2000, FALSE), L("7201", "1.5", "Love", 6, 1000, TRUE),
         L("7201", "2", "Vertical", 8, 1280, TRUE), L("17201.5", "2", "Vertical", 8, 1280, FALSE)}
File(x, p) == [nmax |-> 3, ok |-> TRUE, proc |-> p, lines |-> x]
Init == lns = << >> /\ k = 0 /\ op = [name |-> "init"]
AddStep == /\ Len(lns) < MaxLines
           /\ \E x \in Pool : lns' = Append(lns, x) /\ op' = [name |-> "line", l |-> x]
ReadStep == /\ lns # << >> /\ Clear(File(lns, "rtbf")) /\ lns' = lns
            /\ \E wave \in {"rayleigh", "love"}, s \in {TRUE, FALSE} :
                 LET r == Read(<<File(lns, "rtbf")>>, wave, s)
                 IN op' = [name |-> "read", wave |-> wave, suite |-> s, out |-> r.out, sets |-> r.sets]
Next == (AddStep \/ ReadStep) /\ k' = Len(lns')
Spec == Init /\ [][Next]_<<lns, k, op>>
View == <<lns, k>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, lns |-> lns], o |-> op', q |-> [k |-> k', lns |-> lns']])>>)
InvReadOnce == lns # << >> => \A wave \in {"rayleigh", "love"} : ReadOnce(File(lns, "rtbf"), wave)
=============================================================================
