------------------------------ MODULE MC_Store ------------------------------
EXTENDS Store, TLC, Json
CONSTANTS MaxSteps, Mode
VARIABLES w, k, op
A == [id |-> "a", attrs |-> <<"frequency", "velocity", "azimuth">>, rows |-> 0, cols |-> 3,
      data |-> [frequency |-> <<8, 16, 32>>, velocity |-> <<800, Nan, 512>>, azimuth |-> <<40, -40, Nan>>], valid |-> <<1, 0, 1>>]
B == [id |-> "b", attrs |-> <<"frequency", "velocity">>, rows |-> 2, cols |-> 1,
      data |-> [frequency |-> <<8, 8>>, velocity |-> <<640, 400>>], valid |-> <<1, 1>>]
A2 == [id |-> "a", attrs |-> <<"frequency", "velocity">>, rows |-> 0, cols |-> 1,
       data |-> [frequency |-> <<20>>, velocity |-> <<200>>], valid |-> <<1>>]
Cut == [name |-> "out", m |-> 0, attr |-> "velocity", lims |-> <<<<500, 4>>, <<700, 4>>>>]
Init == /\ w = [heap |-> <<A, B, A2>>, suites |-> IF Mode = "suites" THEN <<<<1>>, <<2>>>> ELSE << >>,
                files |-> [f1 |-> << >>, f2 |-> << >>], dicts |-> << >>]
        /\ k = 0 /\ op = [name |-> "init"]
H == 1..(IF Len(w.heap) < 4 THEN Len(w.heap) ELSE 4)
Su == 1..(IF Len(w.suites) < 4 THEN Len(w.suites) ELSE 4)
Fi == {f \in DOMAIN w.files : w.files[f] # << >>}
SuiteOps == {[name |-> "single", i |-> i] : i \in H} \cup {[name |-> "frompeaks", is |-> <<i, j>>] : i \in H, j \in H}
            \cup {[name |-> "append", s |-> s, i |-> i] : s \in Su, i \in H} \cup {[name |-> "appendbad", s |-> s] : s \in Su}
            \cup {[name |-> "suitebad"]}
            \cup {[name |-> "merge", ss |-> <<s>>] : s \in Su} \cup {[name |-> "merge", ss |-> <<s, t>>] : s \in Su, t \in Su}
            \cup {[name |-> "rejectall", s |-> s, how |-> Cut] : s \in Su}
FileOps == {[name |-> "save", i |-> i, f |-> f, app |-> a] : i \in H, f \in DOMAIN w.files, a \in {TRUE, FALSE}}
           \cup {[name |-> "savesuite", s |-> s, f |-> f] : s \in Su, f \in {"f1"}}
           \cup {[name |-> "load", f |-> f] : f \in Fi} \cup {[name |-> "loadsuite", fs |-> <<f>>] : f \in Fi}
           \cup {[name |-> "loadsuite", fs |-> <<f, g>>] : f \in Fi, g \in Fi}
           \cup {[name |-> "dict", f |-> f] : f \in Fi}
           \cup {[name |-> "fromdict", ds |-> <<d>>] : d \in 1..Len(w.dicts)}
           \cup {[name |-> "peaksdict", d |-> d, j |-> 1] : d \in 1..Len(w.dicts)}
           \cup {[name |-> "reject", i |-> i, how |-> Cut] : i \in {1, 2}}
Legal(o) == o.name = "save" /\ o.app => w.files[o.f] # << >>
Next == /\ k < MaxSteps /\ k' = k + 1
        /\ \E o \in (IF Mode = "suites" THEN SuiteOps ELSE FileOps) :
             /\ Legal(o)
             /\ LET r == Do(w, o) IN w' = r.w /\ op' = o @@ [out |-> r.out]
Spec == Init /\ [][Next]_<<w, k, op>>
View == <<w, k>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, w |-> w], o |-> op', q |-> [k |-> k', w |-> w']])>>)
InvSuites == SuitesDistinct(w)
InvFiles == FilesDistinct(w)
PropNeverLost == [][\A s \in 1..Len(w.suites) : /\ Len(w'.suites) >= s
                                               /\ SubSeq(w'.suites[s], 1, Len(w.suites[s])) = w.suites[s]]_<<w, k, op>>
PropFailSafe == [][op'.out # "ok" => w' = w]_<<w, k, op>>
\* what is loaded is what was saved
PropRestores == [][(op'.name = "load" /\ op'.out = "ok") => w'.heap[Len(w'.heap)] = w.files[op'.f][1]]_<<w, k, op>>
=============================================================================
