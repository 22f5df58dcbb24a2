------------------------------ MODULE MC_Plot ------------------------------
EXTENDS Plot, TLC, Json
CONSTANTS Depth, Members
VARIABLES k, s, axes, op
Cells == {<<2, 1>>, <<3, 4>>, <<4, 4>>, <<6, Undef>>}
M(id, cs) == [id |-> id, cells |-> cs, valid |-> [i \in DOMAIN cs |-> IF cs[i][2] = Undef THEN 0 ELSE 1]]
Suites == {<<M("a", c)>> : c \in {<<<<2, 1>>, <<3, 4>>, <<6, Undef>>>>, <<<<4, 4>>, <<4, 4>>>>}}
          \cup (IF Members > 1 THEN {<<M("a", <<<<2, 1>>, <<3, 4>>>>), M("b", <<<<6, 3>>, <<6, Undef>>>>)>>} ELSE {})
          \cup (IF Members > 2 THEN {<<M("a", <<<<2, 1>>>>), M("b", <<<<3, 2>>>>), M("c", <<<<4, 4>>, <<6, 1>>>>)>>} ELSE {})
Types == {<<<<"frequency">>, <<"velocity">>>>, <<<<"wavelength">>, <<"slowness">>>>, <<<<"frequency", "wavenumber">>, <<"velocity", "wavelength">>>>,
          <<<<"frequency">>, <<"velocity", "slowness">>>>}
D == [form |-> "default", v |-> << >>]
All(x) == [form |-> "all", v |-> <<x>>]
Each(n, f(_)) == [form |-> "each", v |-> [m \in 1..n |-> f(m)]]
Stys(n) == {[color |-> D, marker |-> D, name |-> D], [color |-> All("r"), marker |-> D, name |-> All("n")],
            [color |-> Each(n, LAMBDA m : IF m = 1 THEN "g" ELSE "k"), marker |-> All("x"), name |-> D],
            [color |-> D, marker |-> D, name |-> Each(n, LAMBDA m : IF m = 2 THEN "z" ELSE "y")], [color |-> D, marker |-> D, name |-> All("")]}
MasksFor(su) == {<< >>, [m \in DOMAIN su |-> [i \in DOMAIN su[m].cells |-> IF i = 1 THEN 1 ELSE 0]],
                 [m \in DOMAIN su |-> [i \in DOMAIN su[m].cells |-> 1]], <<[i \in DOMAIN su[1].cells |-> 0]>>}
Init == k = 0 /\ s \in Suites /\ axes = << >> /\ op = [name |-> "init"]
Next == /\ k < Depth /\ k' = k + 1
        /\ \/ \E t \in Types, sty \in Stys(Len(s)), ms \in MasksFor(s), mk \in {TRUE, FALSE} :
                 /\ ~mk => axes # << >>
                 /\ (Members < 3 /\ k > 0) => /\ ms \in {<< >>, <<[i \in DOMAIN s[1].cells |-> 0]>>} /\ sty.color.form = "default"
                                              /\ mk => op.name = "reject"
                 /\ LET d == DrawSuite(IF mk THEN << >> ELSE axes, s, t[1], t[2], sty, ms)
                    IN /\ op' = [name |-> "plot", xts |-> t[1], yts |-> t[2], sty |-> sty, masks |-> ms, make |-> mk, out |-> d.out]
                       /\ axes' = IF mk /\ d.out # "ok" THEN axes ELSE d.axes
                       /\ s' = s
           \/ \E m \in DOMAIN s : \E i \in DOMAIN s[m].cells :
                 /\ s[m].valid[i] = 1 /\ axes' = axes
                 /\ s' = [s EXCEPT ![m].valid = [j \in DOMAIN s[m].cells |-> IF s[m].cells[j] = s[m].cells[i] THEN 0 ELSE s[m].valid[j]]]
                 /\ op' = [name |-> "reject", m |-> m, c |-> s[m].cells[i]]
Spec == Init /\ [][Next]_<<k, s, axes, op>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, s |-> s, axes |-> axes], o |-> op', q |-> [k |-> k', s |-> s', axes |-> axes']])>>)
Inv == \A t \in Types, sty \in Stys(Len(s)), ms \in MasksFor(s) : DrawsExactly(axes, s, t[1], t[2], sty, ms)
=============================================================================
