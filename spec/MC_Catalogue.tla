---------------------------- MODULE MC_Catalogue ----------------------------
(* The relations of the catalogue, explored model by model: the states are   *)
(* the models, the steps the rewritings that leave the function unchanged or *)
(* invert data or factors; the classes reached must be the classes of the    *)
(* truth tables.                                                             *)
EXTENDS Catalogue
VARIABLES start, at, dat, fac      \* fac, dat: data / factors have been inverted

Dual(p) == CASE p = "AND" -> "NOR" [] p = "NOR" -> "AND" [] p = "OR" -> "NAND" [] p = "NAND" -> "OR" [] OTHER -> p
Init == start \in Models /\ at = start /\ dat = FALSE /\ fac = FALSE
InvertData == at' = <<NegOp(at[1]), at[2]>> /\ dat' = ~dat /\ UNCHANGED <<start, fac>>
Through == at[1] \notin {"XOR", "NXOR"} /\ at' = <<Dual(at[1]), NegOp(at[2])>> /\ UNCHANGED <<start, dat, fac>>
InvertFactors == at[2] \notin {"XOR", "NXOR"} /\ at' = <<at[1], Dual(at[2])>> /\ fac' = ~fac /\ UNCHANGED <<start, dat>>
Next == InvertData \/ Through \/ InvertFactors
Spec == Init /\ [][Next]_<<start, at, dat, fac>>

\* the rewritten model is the start with the inversions applied
Sound == Plain[at] = Table(start, [out |-> dat, hid |-> FALSE, inn |-> fac])

\* what the groups must be
Kins == {{q \in Models : Kin(m, q)} : m \in Models}
Clans == {{q \in Models : Clan(m, q)} : m \in Models}
Functions == {Plain[m] : m \in Models}
Rewritable(m, q) ==       \* by Through alone, or followed by inversions
  LET thr == IF m[1] \in {"XOR", "NXOR"} THEN {m} ELSE {m, <<Dual(m[1]), NegOp(m[2])>>}
      inn == thr \cup {<<r[1], Dual(r[2])>> : r \in {t \in thr : t[2] \notin {"XOR", "NXOR"}}}
  IN [same |-> q \in thr, kin |-> q \in inn, clan |-> q \in inn \cup {<<NegOp(r[1]), r[2]>> : r \in inn}]
\* once, in the initial states only
Groups ==
  (at = start /\ ~dat /\ ~fac) =>
    /\ Cardinality(Functions) = 24 /\ Cardinality(Kins) = 16 /\ Cardinality(Clans) = 8
    /\ UNION Kins = Models /\ \A a, b \in Kins : a = b \/ a \cap b = {}
    /\ UNION Clans = Models /\ \A a, b \in Clans : a = b \/ a \cap b = {}
    \* rewriting finds everything there is to find
    /\ \A q \in Models : LET r == Rewritable(start, q)
         IN r.same = Same(start, q) /\ r.kin = Kin(start, q) /\ r.clan = Clan(start, q)
    /\ Represents(Canonical, Clan)
=============================================================================
