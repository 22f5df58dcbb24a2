------------------------------ MODULE MC_Pick ------------------------------
EXTENDS Pick, TLC, Json
CONSTANTS MaxSteps, NP
VARIABLES cfg, s, h, op
Pts == {<<1, 2>>, <<3, -1>>}
Cfgs == [npts : 1..NP, adj : {TRUE, FALSE}, ask : {TRUE, FALSE}]
Init == cfg \in Cfgs /\ s = Start(cfg) /\ h = << >> /\ op = [name |-> "init"]
Acts == {[name |-> n] : n \in Kinds(s.ph) \ {"add"}} \cup (IF "add" \in Kinds(s.ph) THEN {[name |-> "add", p |-> p] : p \in Pts} ELSE {})
Next == /\ s.ph # "done" /\ Len(h) < MaxSteps
        /\ \E a \in Acts : /\ s' = Step(cfg, s, a) /\ h' = Append(h, a)
                           /\ op' = [name |-> "session", cfg |-> cfg, steps |-> h', xs |-> Xs(s'.acc), ys |-> Ys(s'.acc), out |-> "ok"]
        /\ cfg' = cfg
Spec == Init /\ [][Next]_<<cfg, s, h, op>>
View == <<cfg, s, h>>
Emit == s'.ph = "done" => PrintT(<<"E", ToJson([p |-> [k |-> 0], o |-> op', q |-> [k |-> 1]])>>)
\* never more points than wanted, none before a point was selected, all of them when not stopped
InvNeverMore == Len(s.acc) <= cfg.npts
InvDone == s.ph = "done" => Len(s.acc) >= 1 /\ s.sel = << >>
PropOnlyAppends == [][SubSeq(s'.acc, 1, Len(s.acc)) = s.acc]_<<cfg, s, h, op>>
PropStopsEarlyOnlyOnKey == [][(s'.ph = "done" /\ Len(s'.acc) < cfg.npts) => h'[Len(h')].name = "key"]_<<cfg, s, h, op>>
=============================================================================
