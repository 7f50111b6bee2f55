---------------------------- MODULE MC_Threshold ----------------------------
(* The chain of the threshold model: entries of z and u flip, thresholds are   *)
(* redrawn.  exp(lambda) = Base, gamma = Gam[1]/Gam[2].                        *)
EXTENDS Threshold
CONSTANTS N, D, L, Base, QMax, XAll
VARIABLES f, q, x, last
vars == <<f, q, x, last>>
Odds == <<1, 3>>
Gam == <<1, 2>>
Init == /\ \E z \in [1..N -> [1..L -> {-1, 1}]] : \E u \in [1..D -> [1..L -> {-1, 1}]] : f = <<z, u>>
        /\ q \in [1..D -> 1..QMax]
        /\ x \in IF XAll THEN [1..N -> [1..D -> {-1, 0, 1}]]
                 ELSE {[n \in 1..N |-> [d \in 1..D |-> IF n = d THEN 1 ELSE -1]]}
        /\ last = <<>>
Rows(m) == IF m = 1 THEN 1..N ELSE 1..D
OddsAt(g, qq, m, n, l) ==
  LET s == QLocal(g, x, qq, m, n, l)
  IN IF s >= 0 THEN <<Pow(Base, s) * Odds[1], Odds[2]>> ELSE <<Odds[1], Pow(Base, -s) * Odds[2]>>
AcceptAt(g, qq, m, n, l) ==
  LET o == OddsAt(g, qq, m, n, l)
  IN IF g[m][n][l] = -1 THEN (IF o[1] >= o[2] THEN <<1, 1>> ELSE o)
     ELSE (IF o[1] <= o[2] THEN <<1, 1>> ELSE <<o[2], o[1]>>)
Flip == \E m \in 1..2 : \E n \in Rows(m) : \E l \in 1..L :
          /\ f' = SetEntry(f, m, n, l, -f[m][n][l])
          /\ last' = <<"flip", m, n, l>>
          /\ UNCHANGED <<q, x>>
\* weight of value v of threshold d (common factors dropped)
QW(g, d, v) == Pow(Gam[1], v) * Pow(Gam[2], QMax - v) * (Factorial(QMax) \div Factorial(v))
               * Pow(Base, QExplainedIn(x, g[1], g[2], d, v))
Redraw == \E d \in 1..D : \E v \in 1..QMax : v # q[d] /\ q' = [q EXCEPT ![d] = v] /\ last' = <<"q", d>> /\ UNCHANGED <<f, x>>
Next == Flip \/ Redraw
Spec == Init /\ [][Next]_vars
View == <<f, q, x>>

Ones(g) == Cardinality({t \in (1..2) \X (1..MaxOf(N, D)) \X (1..L) : t[2] \in Rows(t[1]) /\ g[t[1]][t[2]][t[3]] = 1})
\* posterior weights of two states relative to their common factor
Gain(a, b) == IF a > b THEN a - b ELSE 0
RelPost(g, h, qq, rr) ==         \* weight of (g, qq) where (h, rr) is the other state
  LET A == QExplained(x, g[1], g[2], qq)
      B == QExplained(x, h[1], h[2], rr)
      a == Ones(g)
      b == Ones(h)
  IN Pow(Base, Gain(A, B)) * Pow(Odds[1], Gain(a, b)) * Pow(Odds[2], Gain(b, a))
PoisW(v) == Pow(Gam[1], v) * Pow(Gam[2], QMax - v) * (Factorial(QMax) \div Factorial(v))
BalanceStep ==
  IF last'[1] = "flip"
  THEN LET a == AcceptAt(f, q, last'[2], last'[3], last'[4])
           b == AcceptAt(f', q, last'[2], last'[3], last'[4])
       IN RelPost(f, f', q, q) * a[1] * b[2] = RelPost(f', f, q, q) * b[1] * a[2]
  ELSE LET d == last'[2]
       IN RelPost(f, f, q, q') * PoisW(q[d]) * QW(f, d, q'[d]) = RelPost(f, f, q', q) * PoisW(q'[d]) * QW(f, d, q[d])
Balance == [][BalanceStep]_vars
LocalIsGlobal == \A m \in 1..2 : \A n \in Rows(m) : \A l \in 1..L : QLocal(f, x, q, m, n, l) = QScore(f, x, q, m, n, l)
\* threshold 1 is OR-AND, threshold above L predicts nothing, higher thresholds predict less
OneIsOr == \A ix \in QCells(f[1], f[2]) : QCell(f[1], f[2], [d \in 1..D |-> 1], ix) = Cell("OR", "AND", <<f[1][ix[1]], f[2][ix[2]]>>)
AboveIsFalse == \A ix \in QCells(f[1], f[2]) : q[ix[2]] > L => ~QCell(f[1], f[2], q, ix)
Monotone == \A ix \in QCells(f[1], f[2]) : QCell(f[1], f[2], [q EXCEPT ![ix[2]] = @ + 1], ix) => QCell(f[1], f[2], q, ix)
=============================================================================
