---------------------------- MODULE MC_CrossCorr ----------------------------
EXTENDS CrossCorr, TLC, Json
CONSTANTS N, NB, Vals, Ns
VARIABLES ph, a, b, res
Recs(L) == [w : [1..L -> Vals], n : Ns]
Init == ph = 0 /\ a \in Recs(N) /\ b \in Recs(NB) /\ res = 0
Next == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED <<a, b>>
        /\ res' = [lag |-> Best(a.w, b.w), w |-> Shift(a, b).w, sum |-> IF N = NB THEN Stacked(a, b).sum ELSE << >>, n |-> a.n + b.n,
                   corr |-> IF a.n = b.n THEN Corr(a.w, b.w, "full") ELSE << >>]
Spec == Init /\ [][Next]_<<ph, a, b, res>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> 0, a |-> a, b |-> b], o |-> [name |-> "align", out |-> res'], q |-> [k |-> 1, a |-> a, b |-> b]])>>)
InvBest == NoBetterLag(a.w, b.w)
InvCorr == CorrOfLags(a.w, b.w) /\ CorrMirrors(a.w, b.w)
InvSelf == SelfAligned(a.w)
=============================================================================
