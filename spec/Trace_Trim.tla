---------------------------- MODULE Trace_Trim ----------------------------
(* One event is one whole session: e.steps what the user did, e.obs what was *)
(* seen at each prompt: the mode and every member's valid peaks.             *)
EXTENDS Trim, TraceLib
RECURSIVE Run(_, _, _, _)
Run(st, axes, steps, n) == IF n > Len(steps) THEN <<st>>
                           ELSE <<st>> \o Run(IF Possible(st, steps[n]) THEN Does(st, axes, steps[n]) ELSE st, axes, steps, n + 1)
Pts(v) == {v[i] : i \in DOMAIN v}
TheVerdict(i) ==
  LET e == Trace[i]
      want == Run(Begin(e.pre), e.axes, e.steps, 1)
      N1 == IF Len(want) < Len(e.obs) THEN Len(want) ELSE Len(e.obs)
      V(x) == [j \in 1..Len(x.s) |-> x.s[j].valid]
  IN (IF Len(want) = Len(e.obs) THEN {} ELSE {"length of the session"})
     \cup (IF e.op.out = (IF want[Len(want)].mode = "done" THEN "ok" ELSE "waiting") THEN {} ELSE {"outcome"})
     \cup (IF \A n \in 1..N1 : e.obs[n].mode = want[n].mode THEN {} ELSE {"prompts"})
     \cup (IF \A n \in 1..N1 : e.obs[n].v = V(want[n]) THEN {} ELSE {"valid peaks"})
     \cup (IF \A n \in 1..N1 : \A a \in DOMAIN e.axes : Pts(e.obs[n].drawn[a]) = Drawn(want[n], e.axes)[a] THEN {} ELSE {"drawn peaks"})
     \cup (IF \A n \in 1..N1 : \A a \in DOMAIN e.axes : Pts(e.obs[n].marked[a]) = Marked(want[n], e.axes)[a] THEN {} ELSE {"marked peaks"})
     \cup (IF \A n \in 1..N1 : \A a \in DOMAIN e.axes : e.obs[n].limits[a] = (IF want[n].mode = "ask" THEN 0 ELSE e.limited) THEN {} ELSE {"limits shown"})
     \cup (IF \A n \in 1..N1 : e.obs[n].view THEN {} ELSE {"view kept"})
     \cup (IF e.kept THEN {} ELSE {"stored values"})
=============================================================================
