------------------------------- MODULE Store -------------------------------
(* Peak sets, suites of them, the JSON files they are saved in, and the      *)
(* dictionaries they are made from.                                          *)
(* w.heap: the peak sets in existence.  w.suites: each the sequence of its   *)
(* members (positions in the heap: a suite refers to its members).           *)
(* w.files[f]: the sequence of sets saved in f (empty: no such file).        *)
(* w.dicts: dictionaries in the caller's hands, as sequences of sets.        *)
EXTENDS Peaks
Ids(ms) == [j \in 1..Len(ms) |-> ms[j].id]
Distinct(x) == \A a \in 1..Len(x) : \A b \in 1..Len(x) : x[a] = x[b] => a = b
RECURSIVE Concat(_)
Concat(xs) == IF xs = << >> THEN << >> ELSE Head(xs) \o Concat(Tail(xs))
Members(w, s) == [j \in 1..Len(w.suites[s]) |-> w.heap[w.suites[s][j]]]
Ok(w) == [out |-> "ok", w |-> w]
Err(e, w) == [out |-> e, w |-> w]
\* a new suite of these positions
NewSuite(w, idx) == IF Distinct([j \in 1..Len(idx) |-> w.heap[idx[j]].id]) THEN Ok([w EXCEPT !.suites = Append(w.suites, idx)])
                    ELSE Err("KeyError", w)
\* new sets and a suite of them
NewSets(w, ms) == IF ~Distinct(Ids(ms)) THEN Err("KeyError", w)
                  ELSE Ok([w EXCEPT !.heap = w.heap \o ms, !.suites = Append(w.suites, [j \in 1..Len(ms) |-> Len(w.heap) + j])])
Save(w, m, f, app) == IF ~app THEN Ok([w EXCEPT !.files[f] = <<m>>])
                      ELSE IF \E j \in 1..Len(w.files[f]) : w.files[f][j].id = m.id THEN Err("KeyError", w)
                      ELSE Ok([w EXCEPT !.files[f] = Append(w.files[f], m)])
Do(w, o) ==
  CASE o.name = "new"       -> Ok([w EXCEPT !.heap = Append(w.heap, Fresh(o.set))])
    [] o.name = "reject"    -> Ok([w EXCEPT !.heap[o.i] = Rejected(w.heap[o.i], o.how)])
    [] o.name = "rejectall" -> Ok([w EXCEPT !.heap = [i \in 1..Len(w.heap) |->
                                     IF \E j \in 1..Len(w.suites[o.s]) : w.suites[o.s][j] = i THEN Rejected(w.heap[i], o.how) ELSE w.heap[i]]])
    [] o.name = "single"    -> NewSuite(w, <<o.i>>)
    [] o.name = "frompeaks" -> NewSuite(w, o.is)
    [] o.name = "append"    -> IF \E j \in 1..Len(w.suites[o.s]) : w.heap[w.suites[o.s][j]].id = w.heap[o.i].id
                               THEN Err("KeyError", w) ELSE Ok([w EXCEPT !.suites[o.s] = Append(w.suites[o.s], o.i)])
    [] o.name = "appendbad" -> Err("TypeError", w)
    [] o.name = "suitebad"  -> Err("TypeError", w)
    [] o.name = "merge"     -> NewSuite(w, Concat([j \in 1..Len(o.ss) |-> w.suites[o.ss[j]]]))
    [] o.name = "save"      -> Save(w, w.heap[o.i], o.f, o.app)
    [] o.name = "savesuite" -> Ok([w EXCEPT !.files[o.f] = Members(w, o.s)])
    [] o.name = "load"      -> Ok([w EXCEPT !.heap = Append(w.heap, w.files[o.f][1])])
    [] o.name = "loadsuite" -> NewSets(w, Concat([j \in 1..Len(o.fs) |-> w.files[o.fs[j]]]))
    [] o.name = "dict"      -> Ok([w EXCEPT !.dicts = Append(w.dicts, w.files[o.f])])
    [] o.name = "fromdict"  -> NewSets(w, Concat([j \in 1..Len(o.ds) |-> w.dicts[o.ds[j]]]))
    [] o.name = "peaksdict" -> Ok([w EXCEPT !.heap = Append(w.heap, w.dicts[o.d][o.j])])
\* P25 as an invariant
SuitesDistinct(w) == \A s \in 1..Len(w.suites) : Distinct(Ids(Members(w, s)))
FilesDistinct(w) == \A f \in DOMAIN w.files : Distinct(Ids(w.files[f]))
=============================================================================
