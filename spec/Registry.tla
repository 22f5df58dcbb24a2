------------------------------ MODULE Registry ------------------------------
(* Two independent name registries; each maps a name to the class (an id)    *)
(* last registered under it, 0 standing for none.                            *)
EXTENDS Integers, Sequences, FiniteSets
Regs == {"transform", "workflow"}
Bound(w, r, n) == n \in DOMAIN w[r] /\ w[r][n] # 0
DoR(w, op) ==
  CASE op.name = "register" -> [st |-> [w EXCEPT ![op.r] = [m \in DOMAIN w[op.r] \cup {op.n} |-> IF m = op.n THEN op.c ELSE w[op.r][m]]],
                                out |-> "ok", got |-> op.c]
    [] op.name \in {"class", "instance"} ->
         IF Bound(w, op.r, op.n) THEN [st |-> w, out |-> "ok", got |-> w[op.r][op.n]]
         ELSE [st |-> w, out |-> "KeyError", got |-> 0]
\* P36: only the addressed entry of the addressed registry changes
FrameR(w, op) == LET t == DoR(w, op).st
                 IN \A r \in Regs : \A n \in DOMAIN w[r] : (op.name # "register" \/ r # op.r \/ n # op.n) => t[r][n] = w[r][n]
LastWins(w, op) == op.name = "register" =>
                     LET t == DoR(w, op).st IN DoR(t, [name |-> "class", r |-> op.r, n |-> op.n]).got = op.c
=============================================================================
