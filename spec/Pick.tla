-------------------------------- MODULE Pick --------------------------------
(* An interactive picking session.  cfg: npts (how many points are wanted),  *)
(* adj (the view may be adjusted first), ask (pause after every point).      *)
(* s: ph the phase, acc the accepted points, sel the points being selected.  *)
(*   adjust  the user moves the view until a key is pressed                  *)
(*   select  left click adds, right click removes, enter accepts             *)
(*   pause   the user moves the view until a key is pressed                  *)
(*   grace   a key within a moment ends the session                          *)
EXTENDS Integers, Sequences
Start(cfg) == [ph |-> IF cfg.adj THEN "adjust" ELSE "select", acc |-> << >>, sel |-> << >>]
Kinds(ph) == CASE ph = "adjust" -> {"key", "click"} [] ph = "pause" -> {"key", "click"}
               [] ph = "select" -> {"add", "pop", "accept"} [] ph = "grace" -> {"key", "click", "wait"} [] OTHER -> {}
Step(cfg, s, a) ==
  CASE s.ph = "adjust" -> IF a.name = "key" THEN [s EXCEPT !.ph = "select"] ELSE s
    [] s.ph = "pause" -> IF a.name = "key" THEN [s EXCEPT !.ph = "grace"] ELSE s
    [] s.ph = "select" ->
         IF a.name = "add" THEN [s EXCEPT !.sel = Append(@, a.p)]
         ELSE IF a.name = "pop" THEN [s EXCEPT !.sel = IF @ = << >> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
         ELSE IF s.sel = << >> THEN s
         ELSE [ph |-> IF cfg.ask THEN "pause" ELSE "grace", acc |-> Append(s.acc, s.sel[Len(s.sel)]), sel |-> << >>]
    [] s.ph = "grace" -> [s EXCEPT !.ph = IF a.name = "key" \/ Len(s.acc) >= cfg.npts THEN "done" ELSE "select"]
    [] OTHER -> s
RECURSIVE Play(_, _, _)
Play(cfg, s, steps) == IF steps = << >> THEN s ELSE Play(cfg, Step(cfg, s, Head(steps)), Tail(steps))
Xs(acc) == [j \in 1..Len(acc) |-> acc[j][1]]
Ys(acc) == [j \in 1..Len(acc) |-> acc[j][2]]
\* distance and time, in that order, when time is on the given axis
Dist(acc, timeax) == IF timeax = "y" THEN Xs(acc) ELSE Ys(acc)
Time(acc, timeax) == IF timeax = "y" THEN Ys(acc) ELSE Xs(acc)
=============================================================================
