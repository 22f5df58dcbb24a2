---------------------------- MODULE MC_Transform ----------------------------
(* Jobs that can be posed to a transform; a job in, an answer out.           *)
EXTENDS Transform, Json
CONSTANTS Mode, Targets, Mults, Ms, MaxOff, MaxS
VARIABLES job, k, op

Init == job = 0 /\ k = 0 /\ op = [name |-> "init"]
KeptJob == /\ Mode = "kept"
           /\ \E t \in Targets, m \in Mults : \E f0, f1 \in {x \in -1..(4 * t * m) : x % 4 # 2} :
                /\ f0 <= f1
                /\ op' = [name |-> "kept", N |-> t * m, mult |-> m, f0 |-> f0, f1 |-> f1,
                          ks |-> Kept(t * m, f0, f1, m)]
                /\ job' = [N |-> t * m, mult |-> m, f0 |-> f0, f1 |-> f1]
\* a wave of slowness s0 over a set of receivers at increasing offsets
Up(X) == CHOOSE q \in [1..Cardinality(X) -> X] : \A i \in 1..(Cardinality(X) - 1) : q[i] < q[i + 1]
OffSets == {Up(T) : T \in {T \in SUBSET (1..MaxOff) : Cardinality(T) \in 2..4}}
SLists == {Up(T) : T \in {T \in SUBSET (1..MaxS) : Cardinality(T) = 2}}
Down(q) == [i \in DOMAIN q |-> q[Len(q) - i + 1]]
WaveJob == /\ Mode = "wave"
           /\ \E M \in Ms, off \in OffSets, q \in SLists : \E s0 \in {q[i] : i \in DOMAIN q} :
                /\ op' = [name |-> "wave", M |-> M, off |-> off, s |-> Down(q), s0 |-> s0,
                          good |-> [f \in 1..(M - 1) |-> {i \in DOMAIN q : Aliased(off, Down(q)[i], s0, f, M)}]]
                /\ job' = [M |-> M, off |-> off, s |-> Down(q), s0 |-> s0]
Next == k = 0 /\ k' = 1 /\ (KeptJob \/ WaveJob)
Spec == Init /\ [][Next]_<<job, k, op>>
View == <<job, k>>
Emit == PrintT(<<"E", ToJson([p |-> [k |-> k, job |-> job], o |-> op', q |-> [k |-> k', job |-> job']])>>)
InvKept == (k = 1 /\ Mode = "kept") => KeptExact(job.N, job.f0, job.f1, job.mult)
InvWave == (k = 1 /\ Mode = "wave") => \A f \in 1..(job.M - 1) : Recovers(job.off, job.s, job.s0, f, job.M)
=============================================================================
