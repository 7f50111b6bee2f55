----------------------------- MODULE LomApiGen ------------------------------
(* Histories for the code to replay: tlc -simulate walks through LomApi and  *)
(* prints the actions of every behaviour of the required length.             *)
EXTENDS LomApi, TLC, Json, IOUtils
VARIABLES s, h, fin
Depth == atoi(IOEnv.DEPTH)
Special == atoi(IOEnv.SPECIAL)      \* share of special models, in fifths
AllModels == LET O == {"AND", "NAND", "OR", "NOR", "XOR", "NXOR"}
             IN {o \o "-" \o i : o \in O, i \in O}
Ext == 1..3
Shapes == {<<a, b>> : a \in Ext, b \in Ext} \cup {<<a, b, c>> : a \in Ext, b \in Ext, c \in 1..2}
Hows == {"point_estimate", "factor_map", "factor_mean", "mc"}
R(S) == RandomElement(S)
B == BOOLEAN
ModelFor(t) == IF R(1..5) <= Special THEN R({"MAX-AND", "qL-AND", "OR-AND-IBP"}) ELSE IF R(1..3) = 1 THEN "OR-AND" ELSE R(AllModels)
Draw(k, t) ==
  LET M == Set(Members(t)) IN
  CASE k = "matrix" -> [a |-> "matrix", dims |-> R(Shapes), how |-> R({"given", "given64", "float", "shape"}),
                        fix |-> R({"yes", "yes", "no", "some"})]
    [] k = "layer" -> LET open == {m \in DOMAIN t.mats : CanCarry(t, m, "OR-AND")} IN
                      [a |-> "layer", child |-> R(IF open = {} \/ R(1..6) = 1 THEN {0} ELSE open),
                       dims |-> R(Shapes), L |-> R(1..3), model |-> ModelFor(t)]
    [] k = "fix" -> [a |-> "fix", m |-> R(M \cup {1}), on |-> R(B)]
    [] k = "fixl" -> [a |-> "fixl", l |-> R(DOMAIN t.lays \cup {1}), on |-> R(B)]
    [] k = "mask" -> [a |-> "mask", m |-> R(M \cup {1})]
    [] k = "infer" -> [a |-> "infer", n |-> R(1..4), bmin |-> R({0, 0, 1, 3}), bmax |-> R({0, 2, 5, 9}),
                       \* (what the code makes of it replaces these)
                       sizes |-> [j \in DOMAIN t.lays |-> t.lays[j].size], wide |-> [j \in DOMAIN t.lays |-> t.lays[j].size]]
    [] k = "auto" -> [a |-> "auto", l |-> R(DOMAIN t.lays \cup {1}), how |-> R({"clean", "reset", "none"})]
    [] k = "output" -> [a |-> "output", l |-> R(DOMAIN t.lays \cup {1}), how |-> R(Hows), noisy |-> R(B), lazy |-> R({TRUE, FALSE, FALSE}), prob |-> R(B)]
    [] k = "map" -> LET sampled == {m \in M : t.mats[m].smp > 0}
                      rare == {m \in sampled : t.mats[m].q \/ t.mats[m].lay = 0 \/ t.lays[t.mats[m].lay].kind = "ibp"} IN
                  [a |-> "map", m |-> R(IF rare # {} /\ R(1..3) > 1 THEN rare ELSE IF sampled # {} /\ R(1..2) = 1 THEN sampled ELSE M \cup {1})]
    [] k = "refused" -> [a |-> "refused", what |-> R({"nothing", "both"})]
Kinds == {"matrix", "layer", "layer2", "fix", "fix2", "fixl", "mask", "infer", "infer2", "infer3", "output", "output2", "map", "map2", "auto", "refused"}
Plain(k) == CASE k = "map2" -> "map" [] k = "layer2" -> "layer" [] k = "fix2" -> "fix" [] k \in {"infer2", "infer3"} -> "infer" [] k = "output2" -> "output" [] OTHER -> k
GenInit == s = Empty /\ h = <<>> /\ fin = FALSE
Walk == /\ Len(h) < Depth /\ UNCHANGED fin
           /\ \E k \in Kinds : \E a \in {Draw(Plain(k), s)} :
                /\ Enabled(s, a)
                /\ (a.a = "matrix" => Len(s.mats) < 12) /\ (a.a = "layer" => Len(s.lays) < 4)
                /\ (a.a = "refused" => \A i \in DOMAIN h : h[i].a # "refused")
                /\ (h = <<>> => a.a \in {"matrix", "layer"})
                /\ s' = Step(s, a) /\ h' = Append(h, a)
Finish == Len(h) = Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<s, h>>
GenNext == Walk \/ Finish
Emit == fin => PrintT("HISTORY " \o ToJson(h))
=============================================================================
