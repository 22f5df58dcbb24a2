------------------------------- MODULE Trim -------------------------------
(* An interactive trimming session.  The user either draws (two clicks) or   *)
(* answers a question.  st: s the suite, pend the marked but uncommitted     *)
(* peaks of each member, mode "draw", "ask" or "done".                       *)
EXTENDS Peaks
Begin(s) == [s |-> s, pend |-> [j \in 1..Len(s) |-> {}], mode |-> "draw"]
Empty(s) == [j \in 1..Len(s) |-> {}]
Commit(st) == [j \in 1..Len(st.s) |-> Without(st.s[j], st.pend[j])]
\* e.name: "box" (both clicks on axes e.ax: xl, yl the corners), "split" (clicks on different axes), "answer"
Draw(st, axes, e) ==
  LET hit == [j \in 1..Len(st.s) |-> Inside(st.s[j], axes[e.ax].xt, e.xl, axes[e.ax].yt, e.yl)]
  IN IF hit = Empty(st.s) THEN [st EXCEPT !.mode = "ask"]
     ELSE [st EXCEPT !.pend = [j \in 1..Len(st.s) |-> st.pend[j] \cup hit[j]]]
Answer(st, a) == CASE a = "0" -> [s |-> Commit(st), pend |-> Empty(st.s), mode |-> "done"]
                   [] a = "1" -> [s |-> Commit(st), pend |-> Empty(st.s), mode |-> "draw"]
                   [] a = "2" -> [s |-> st.s, pend |-> Empty(st.s), mode |-> "draw"]
                   [] OTHER -> st
Does(st, axes, e) == CASE e.name = "split" -> st [] e.name = "box" -> Draw(st, axes, e) [] OTHER -> Answer(st, e.a)
\* What the figure shows at a prompt: the peaks that are left, those marked, both nothing while a question is asked.
Coord(m, attr, i) == LET r == Rat(m, attr, i) IN (r[1] * (IF attr = "slowness" THEN 3200 ELSE 4)) \div r[2]
Points(st, ax, S(_)) == {<<Coord(st.s[c[1]], ax.xt, c[2]), Coord(st.s[c[1]], ax.yt, c[2])>> : c \in UNION {{<<j, i>> : i \in S(j)} : j \in 1..Len(st.s)}}
Drawn(st, axes) == [a \in DOMAIN axes |-> IF st.mode = "ask" THEN {} ELSE Points(st, axes[a], LAMBDA j : Valids(st.s[j]))]
Marked(st, axes) == [a \in DOMAIN axes |-> IF st.mode = "ask" THEN {} ELSE Points(st, axes[a], LAMBDA j : st.pend[j])]
Possible(st, e) == \/ e.name \in {"split", "box"} /\ st.mode = "draw"
                   \/ e.name = "answer" /\ st.mode = "ask"
=============================================================================
