------------------------------ MODULE MC_Trim ------------------------------
EXTENDS Trim, TLC, Json
CONSTANTS MaxSteps
VARIABLES st, k, op
\* in quarters: velocities 100, 200, 400; frequencies 2, 4, 8
A1 == [id |-> "a", attrs |-> <<"frequency", "velocity">>, rows |-> 0, cols |-> 3,
       data |-> [frequency |-> <<8, 16, 32>>, velocity |-> <<1600, 800, 400>>], valid |-> <<1, 1, 1>>]
A2 == [id |-> "b", attrs |-> <<"frequency", "velocity">>, rows |-> 0, cols |-> 2,
       data |-> [frequency |-> <<16, 32>>, velocity |-> <<1600, 800>>], valid |-> <<1, 1>>]
Axes == <<[xt |-> "frequency", yt |-> "velocity"], [xt |-> "wavelength", yt |-> "velocity"]>>
B(ax, xl, yl) == [name |-> "box", ax |-> ax, xl |-> xl, yl |-> yl]
Events == {B(1, <<<<3, 1>>, <<6, 1>>>>, <<<<150, 1>>, <<500, 1>>>>),       \* two peaks, one of each member
           B(1, <<<<10, 1>>, <<1, 1>>>>, <<<<150, 1>>, <<300, 1>>>>),       \* corners in the other order
           B(2, <<<<70, 1>>, <<300, 1>>>>, <<<<300, 1>>, <<500, 1>>>>),     \* on the second axes
           B(1, <<<<3, 1>>, <<3, 1>>>>, <<<<150, 1>>, <<150, 1>>>>),        \* a double click
           [name |-> "split"]}
          \cup {[name |-> "answer", a |-> x] : x \in {"0", "1", "2", "x"}}
Init == st = Begin(<<A1, A2>>) /\ k = 0 /\ op = [name |-> "init"]
Next == /\ k < MaxSteps /\ k' = k + 1
        /\ \E e \in Events : Possible(st, e) /\ st' = Does(st, Axes, e) /\ op' = e
Spec == Init /\ [][Next]_<<st, k, op>>
View == <<st, k>>
Obs(x) == [mode |-> x.mode, v |-> [j \in 1..Len(x.s) |-> x.s[j].valid], drawn |-> Drawn(x, Axes), marked |-> Marked(x, Axes), limits |-> 0, view |-> TRUE]
\* marked peaks are still shown as peaks
InvMarkedShown == \A a \in DOMAIN Axes : Marked(st, Axes)[a] \subseteq Drawn(st, Axes)[a]
Full(x) == [pend |-> x.pend, o |-> Obs(x)]
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, f |-> Full(st)], o |-> op', q |-> [k |-> k', f |-> Full(st')]])>>)
\* only an answer changes which peaks are valid, only a pause asks, undo never brings a committed peak back
PropCommit == [][st'.s # st.s => op'.name = "answer" /\ op'.a \in {"0", "1"}]_<<st, k, op>>
PropUndo == [][(op'.name = "answer" /\ op'.a = "2") => st'.s = st.s /\ st'.pend = Empty(st.s)]_<<st, k, op>>
PropQuit == [][st'.mode = "done" => op'.name = "answer" /\ op'.a = "0"]_<<st, k, op>>
PropPermanent == [][Permanent(st.s, st'.s)]_<<st, k, op>>
InvPendingValid == \A j \in 1..Len(st.s) : st.pend[j] \subseteq Valids(st.s[j])
=============================================================================
