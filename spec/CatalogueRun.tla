---------------------------- MODULE CatalogueRun ----------------------------
(* What the library says about models, judged by the catalogue.              *)
EXTENDS Catalogue, Events
Clause(name, ok) == IF ok THEN {} ELSE {name}
M(o) == <<o.o, o.i>>
Names(s) == {<<s[j][1], s[j][2]>> : j \in DOMAIN s}
Bases == {<<"AND", "AND">>, <<"XOR", "AND">>, <<"AND", "XOR">>, <<"XOR", "XOR">>}

\* class o.c of a model with the three inversions o.inv
FailedClass(o) ==
  LET b == <<o.c[1], o.c[2]>>
      v == [out |-> o.inv[1], hid |-> o.inv[2], inn |-> o.inv[3]]
  IN Clause("not a base class", b \in Bases)
     \cup Clause("class and inversions are not the model", b \in Bases => Table(b, v) = Plain[M(o)])

\* model o.r in place of o: the same function; replacing again changes nothing
FailedEquiv(o) ==
     Clause("replacement is not the model", <<o.r[1], o.r[2]>> \in Models /\ Same(M(o), <<o.r[1], o.r[2]>>))
     \cup Clause("replacement replaced", o.rr = o.r)
     \cup Clause("own pairs", o.own = IF o.pair THEN o.first ELSE <<o.o, o.i>>)

\* the groupings: o.clans, o.fams lists of models
FailedGroup(o) ==
  LET C == Names(o.clans)
      F == Names(o.fams)
      ok == C \subseteq Models /\ F \subseteq Models
  IN Clause("not models", ok)
     \cup Clause("listed twice", Len(o.clans) = Cardinality(C) /\ Len(o.fams) = Cardinality(F))
     \cup IF ~ok THEN {} ELSE
          Clause("clans", Represents(C, Clan))
          \cup Clause("families", Represents(F, Kin))
          \cup Clause("families contain the clans", C \subseteq F)
          \cup (IF o.mode = "implemented" THEN Clause("implemented clans", C = Canonical) ELSE {})

FailedList(o) == Clause("implemented models", Names(o.names) = Canonical /\ Len(o.names) = 8)

\* an operator applied to a vector
FailedOp(o) == Clause("operator", o.r = Op(o.name, [j \in DOMAIN o.x |-> o.x[j] = 1]))

\* a request that names no model, level or mode must be refused
FailedRefuse(o) == Clause("accepted", o.refused)

FailedCat(o) == CASE o.op = "class"  -> FailedClass(o)
                  [] o.op = "equiv"  -> FailedEquiv(o)
                  [] o.op = "group"  -> FailedGroup(o)
                  [] o.op = "list"   -> FailedList(o)
                  [] o.op = "lop"    -> FailedOp(o)
                  [] o.op = "refuse" -> FailedRefuse(o)
=============================================================================
