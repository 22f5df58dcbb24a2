---------------------------- MODULE MC_Inversion ----------------------------
EXTENDS Inversion, TLC, Json
CONSTANTS M, V
VARIABLES k, op
Cov(n) == IF n = 1 THEN {<<<<1>>>>, <<<<3>>>>} ELSE {<<<<1, 0>>, <<0, 2>>>>, <<<<2, 1>>, <<1, 1>>>>, <<<<2, -1>>, <<-1, 3>>>>}
Vec(n) == IF n = 1 THEN {<<<<2>>>>, <<<<-3>>>>} ELSE {<<<<1>>, <<-2>>>>, <<<<3>>, <<5>>>>}
Gs(a, b) == {[r \in 1..a |-> [c \in 1..b |-> f[r, c]]] : f \in [(1..a) \X (1..b) -> (-M)..M]}
Pairs(n) == IF V = 1 THEN {<<CHOOSE v \in Vec(n) : v[1][1] > 0, CHOOSE v \in Vec(n) : v[1][1] # 1>>} ELSE Vec(n) \X Vec(n)
Init == /\ k = 0
        /\ op \in {[name |-> "init", g |-> g] : g \in UNION {Gs(n, j) : n \in 1..2, j \in 1..2}}
Next == /\ k = 0 /\ k' = 1
        /\ LET n == R(op.g) j == C(op.g) IN
           \E cp \in Cov(j), cd \in Cov(n), pp \in Pairs(j), dd \in Pairs(n) :
             LET x == [g |-> op.g, cp |-> cp, cd |-> cd, p0 |-> pp[1], pm |-> pp[2], d0 |-> dd[1], dm |-> dd[2]]
             IN op' = [name |-> "invert", x |-> x, det |-> Det(S(x)), update |-> Update(x), post |-> Posterior(x)]
Spec == Init /\ [][Next]_<<k, op>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k], o |-> op', q |-> [k |-> k']])>>)
Inv == op.name = "invert" => /\ IsInverse(S(op.x)) /\ PosteriorOK(op.x) /\ Symmetric(op.post) /\ Shrinks(op.x) /\ LinearFixed(op.x)
=============================================================================
