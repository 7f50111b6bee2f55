----------------------------- MODULE MC_LomApi ------------------------------
(* All short histories of a small machine.                                   *)
EXTENDS LomApi
CONSTANTS Steps, MaxMats, MaxLays
VARIABLES s, n
D2 == {<<2, 2>>}
D3 == {<<2, 2>>, <<2, 1, 2>>}
CONSTANTS Dims
Models == {"OR-AND", "MAX-AND", "OR-AND-IBP"}
Actions(t) ==
       {[a |-> "matrix", dims |-> d, how |-> "given", fix |-> f] : d \in Dims, f \in {"yes", "no"}}
  \cup {[a |-> "layer", child |-> c, dims |-> d, L |-> l, model |-> m] : c \in 0..Len(t.mats), d \in D2, l \in {1, 2}, m \in Models}
  \cup {[a |-> "fix", m |-> m, on |-> b] : m \in DOMAIN t.mats, b \in BOOLEAN}
  \cup {[a |-> "fixl", l |-> l, on |-> b] : l \in DOMAIN t.lays, b \in BOOLEAN}
  \cup {[a |-> "infer", n |-> k, sizes |-> [j \in DOMAIN t.lays |-> IF t.lays[j].auto # "none" THEN 1 ELSE IF MayGrow(t, j) THEN w ELSE t.lays[j].size],
          wide |-> [j \in DOMAIN t.lays |-> w]] : k \in {1, 3}, w \in {2, 3}}
  \cup {[a |-> "auto", l |-> l, how |-> "clean"] : l \in DOMAIN t.lays}
  \cup {[a |-> "map", m |-> m] : m \in DOMAIN t.mats}
  \cup {[a |-> "output", l |-> l] : l \in DOMAIN t.lays}
Init == s = Empty /\ n = 0
Next == /\ n < Steps /\ n' = n + 1
        /\ \E a \in Actions(s) : Enabled(s, a) /\ s' = Step(s, a)
                                 /\ Len(s'.mats) <= MaxMats /\ Len(s'.lays) <= MaxLays
Spec == Init /\ [][Next]_<<s, n>>
Sound == WellFormed(s)
\* inference is always possible again once no lonely matrix is free
Room2 == \A m \in DOMAIN s.mats : (s.mats[m].lay # 0 /\ ~s.mats[m].q) => Len(s.mats[m].par) <= 2
Settled == CanInfer(s) => LET t == Infer(s, [a |-> "infer", n |-> 2, sizes |-> [j \in DOMAIN s.lays |-> s.lays[j].size],
                                                wide |-> [j \in DOMAIN s.lays |-> s.lays[j].size]]) IN
             /\ CanInfer(t) /\ \A j \in DOMAIN t.lays : Samples(t, j) \in {1, 2}
             /\ \A m \in DOMAIN t.mats : t.mats[m].smp > 0 <=> (t.mats[m].reg /\ ~t.mats[m].fix)
=============================================================================
