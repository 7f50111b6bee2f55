---------------------------- MODULE LomTraceRun -----------------------------
(* Trace walker over recorded inferences and observations of cleaning.       *)
EXTENDS LomTrace
Clause(name, ok) == IF ok THEN {} ELSE {name}

\* ---- direct cleaning of a layer: factors o.fs with masks o.mk, second factors
\* o.rs of parent layers with masks o.rm (o.ro[j]: the factor they follow),
\* dispersion o.lm; results primed with "2"
FailedClean(o) ==
  LET D == 1..Width(o.fs)
      keep(S) ==
        /\ \A k \in DOMAIN o.fs : o.mk2[k] = RestrictCols(o.mk[k], S)
        /\ \A j \in DOMAIN o.rs : o.rs2[j] = RestrictRows(o.rs[j], S) /\ o.rm2[j] = RestrictRows(o.rm[j], S)
        /\ o.lm2 = IF o.vec THEN RestrictRows(o.lm, S) \o <<o.lm[Len(o.lm)]>> ELSE o.lm
      aligned == \A k \in DOMAIN o.fs : Len(o.fs2[k]) = Len(o.fs[k])
                   /\ \A n \in DOMAIN o.fs2[k] : Len(o.fs2[k][n]) = Len(o.fs2[1][1])
  IN Clause("rest of the machine", o.other)
     \cup Clause("reported", o.ret = Redundant(o.fs))
     \cup IF ~aligned THEN {"factors not aligned"}
          ELSE IF o.reset
          THEN Clause("reset dimensions", ResetTo(o.fs, o.fs2)) \cup Clause("aligned members", keep(D))
          ELSE Clause("removed dimensions", RemovedTo(o.fs, o.fs2))
               \cup Clause("aligned members",
                      RemovedTo(o.fs, o.fs2) =>
                        \E S \in ChosenSurvivors(o.fs, o.fs2) : keep(S))
\* a layer without fixed size (Ibp) whose inference has ended, early or not
FailedIbpStop(o) ==
  LET L == Width(<<o.z>>)
      sized(a, n) == Len(a) = n /\ \A k \in DOMAIN a : Len(a[k]) = L
      last(t, a) == \A n \in DOMAIN a : \A l \in 1..Len(t[o.n][n]) : t[o.n][n][l] = IF l <= L THEN a[n][l] ELSE -1
  IN Clause("data", o.x2 = o.x) \cup Clause("declarations changed", o.decl)
     \cup Clause("sizes", sized(o.z, o.N) /\ sized(o.u, o.D) /\ sized(o.zm, o.N) /\ sized(o.um, o.D))
     \cup Clause("domain", EntriesIn(o.z, {-1, 1}) /\ EntriesIn(o.u, {-1, 1}))
     \cup Clause("samples", (o.ended /\ o.n > 0) =>
            Len(o.tr) = o.n /\ Len(o.tu) = o.n /\ last(o.tr, o.z) /\ last(o.tu, o.u))
FailedOther(o) == CASE o.op = "ibpstop" -> FailedIbpStop(o) [] o.op = "clean" -> FailedClean(o)
                    [] o.op = "same"  -> Clause("changed by a query", o.before = o.after)
=============================================================================
