------------------------------- MODULE MC_Show -------------------------------
(* Two small machines for Show: a matrix that is sampled, recorded and         *)
(* displayed from running counts; and two tables reduced step by step, in any  *)
(* order, to the rows and columns they share.                                  *)
EXTENDS Show
CONSTANTS Cols, MaxSamples, RowIds, ColIds, Kind
VARIABLES val, tr, cnt, a, b
vars == <<val, tr, cnt, a, b>>
Nothing == [rows |-> <<>>, cols |-> <<>>, v |-> <<>>]
\* entries of the two tables: a function of their labels, different in each
Entry(w, r, c) == 100 * w + 10 * r + c
Table(w, rows, cols) == [rows |-> rows, cols |-> cols,
                         v |-> [i \in DOMAIN rows |-> [j \in DOMAIN cols |-> Entry(w, rows[i], cols[j])]]]
Orders(S) == UNION {{q \in [1..Cardinality(T) -> T] : \A i, j \in DOMAIN q : q[i] = q[j] => i = j} : T \in (SUBSET S) \ {{}}}
Init == /\ IF Kind = "display" THEN val \in [1..1 -> [1..Cols -> {-1, 1}]] ELSE val = <<>>
        /\ tr = <<>>
        /\ cnt = IF Kind = "display" THEN [c \in 1..Cols |-> 0] ELSE <<>>
        /\ IF Kind = "display" THEN a = Nothing /\ b = Nothing
           ELSE \E ra \in Orders(RowIds), rb \in Orders(RowIds), ca \in Orders(ColIds), cb \in Orders(ColIds) :
                  a = Table(1, ra, ca) /\ b = Table(2, rb, cb)
\* --------------------------------------------------------------- the display
Flip(c) == Kind = "display" /\ val' = [val EXCEPT ![1][c] = -@] /\ UNCHANGED <<tr, cnt, a, b>>
Record == /\ Kind = "display" /\ Len(tr) < MaxSamples
          /\ tr' = Append(tr, val)
          /\ cnt' = [c \in 1..Cols |-> cnt[c] + IF val[1][c] = 1 THEN 1 ELSE 0]
          /\ UNCHANGED <<val, a, b>>
Forget == Kind = "display" /\ tr # <<>> /\ tr' = <<>> /\ cnt' = [c \in 1..Cols |-> 0] /\ UNCHANGED <<val, a, b>>
Picture(tech) ==
  LET n == Len(tr)
      one(c) == IF val[1][c] = 1 THEN One ELSE 0
  IN <<[c \in 1..Cols |-> CASE tech = "state" \/ n = 0 -> one(c)
                            [] tech = "mean" -> (One * cnt[c]) \div n
                            [] tech = "map" -> IF 2 * cnt[c] > n THEN One ELSE 0]>>
Shown(tech) == [tech |-> tech, val |-> val, tr |-> IF tr = <<>> THEN <<val>> ELSE tr, got |-> Picture(tech), lim |-> <<0, One>>]
Displays == Kind = "display" => \A t \in {"mean", "map", "state"} : FailedShown(Shown(t)) = {}
\* the map display is the mean display rounded, ties to zero; the state is what a single sample displays
MapOfMean == Kind = "display" => \A c \in 1..Cols : Picture("map")[1][c] = One <=> Picture("mean")[1][c] > One \div 2
Single == Kind = "display" /\ Len(tr) = 1 /\ tr[1] = val => Picture("mean") = Picture("state") /\ Picture("map") = Picture("state")
\* the display tells the two states of every entry apart
Faithful == Kind = "display" => FailedShown([Shown("state") EXCEPT !.val = [val EXCEPT ![1][1] = -@]]) # {}
\* ---------------------------------------------------------------- the tables
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
DropRow(t, i) == [t EXCEPT !.rows = Without(@, i), !.v = Without(@, i)]
DropCol(t, j) == [t EXCEPT !.cols = Without(@, j), !.v = [i \in DOMAIN t.v |-> Without(t.v[i], j)]]
Swapped(q, i) == [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]]
Reduce(t, other) ==
  {DropRow(t, i) : i \in {i \in DOMAIN t.rows : t.rows[i] \notin Labels(other.rows)}}
  \cup {DropCol(t, j) : j \in {j \in DOMAIN t.cols : t.cols[j] \notin Labels(other.cols)}}
  \cup {[t EXCEPT !.rows = Swapped(@, i), !.v = Swapped(@, i)] : i \in {i \in 1..(Len(t.rows) - 1) : t.rows[i] > t.rows[i + 1]}}
  \cup {[t EXCEPT !.cols = Swapped(@, j), !.v = [i \in DOMAIN t.v |-> Swapped(t.v[i], j)]] : j \in {j \in 1..(Len(t.cols) - 1) : t.cols[j] > t.cols[j + 1]}}
Step == Kind = "tables" /\ ((a' \in Reduce(a, b) /\ b' = b) \/ (b' \in Reduce(b, a) /\ a' = a)) /\ UNCHANGED <<val, tr, cnt>>
Next == Record \/ Forget \/ (\E c \in 1..Cols : Flip(c)) \/ Step
Spec == Init /\ [][Next]_vars
\* whatever the order of the steps, what remains is what the tables share
Entries == Kind = "tables" =>
   /\ \A r \in Labels(a.rows), c \in Labels(a.cols) : At(a, r, c) = Entry(1, r, c)
   /\ \A r \in Labels(b.rows), c \in Labels(b.cols) : At(b, r, c) = Entry(2, r, c)
SharedKept == [][Kind = "tables" => Labels(a'.rows) \cap Labels(b'.rows) = Labels(a.rows) \cap Labels(b.rows)
                                    /\ Labels(a'.cols) \cap Labels(b'.cols) = Labels(a.cols) \cap Labels(b.cols)]_vars
Done == Kind = "tables" /\ Reduce(a, b) = {} /\ Reduce(b, a) = {}
DoneIsReduced == Done =>
   FailedTables([a |-> a, b |-> b, ra |-> a, rb |-> b, a2 |-> a, b2 |-> b]) = {}

\* the odds are those of the two distributions
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE IF n = 0 THEN 0 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
RECURSIVE Rising(_, _)
Rising(al, k) == IF k = 0 THEN 1 ELSE Rising(al, k - 1) * (al + k - 1)
RECURSIVE Power(_, _)
Power(al, k) == IF k = 0 THEN 1 ELSE al * Power(al, k - 1)
Binom(n, al, be, k) == Choose(n, k) * Power(al, k) * Power(be, n - k)
BetaBin(n, al, be, k) == Choose(n, k) * Rising(al, k) * Rising(be, n - k)
ASSUME \A n \in 1..4 : \A al \in 1..3 : \A be \in 1..3 : \A k \in 0..(n - 1) :
  /\ BinOdds(n, 1, al, be, k)[1] * Binom(n, al, be, k) = BinOdds(n, 1, al, be, k)[2] * Binom(n, al, be, k + 1)
  /\ BetaOdds(n, al, be, k)[1] * BetaBin(n, al, be, k) = BetaOdds(n, al, be, k)[2] * BetaBin(n, al, be, k + 1)
=============================================================================
