-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* The exact solution of the initial value problems of Problem.tla, by     *)
(* their Taylor series: with y = sum a_m h^m,                              *)
(*   (m+1) a_{m+1} = [m=0](c + d t) + [m=1] d + L a_m                      *)
(*                   + sum_{i<=m} Q(a_i, a_{m-i}).                         *)
(* An interval is cut so that the series of every piece converges fast.    *)
(***************************************************************************)
EXTENDS Problem, Sequences
LOCAL Order == 18

Coefs(p, t, y) ==
  LET n == Len(y)
      conv(a, m, i) ==      \* component i of sum_{j<=m} Q(a_j, a_{m-j})
        RSum(TLCEval([j \in 1..(m + 1) |-> RDot(a[j], TLCEval(MatVec(p.Q[i], a[m + 2 - j])))]))
      next(a, m) ==
        TLCEval([i \in 1..n |->
          RDiv(RSum(<<IF m = 0 THEN RAdd(p.c[i], RMul(p.d[i], t)) ELSE IF m = 1 THEN p.d[i] ELSE "0",
                      RDot(p.L[i], a[m + 1]),
                      IF p.Q = <<>> THEN "0" ELSE conv(a, m, i)>>), RInt(m + 1))])
      f[m \in 0..Order] == IF m = 0 THEN <<y>> ELSE
        LET a == TLCEval(f[m - 1]) IN TLCEval(Append(a, TLCEval(next(a, m - 1))))
  IN f[Order]

Taylor(p, t, y, h) ==
  LET a == TLCEval(Coefs(p, t, y))
      hs[k \in 0..Order] == IF k = 0 THEN "1" ELSE RMul(h, hs[k - 1])
  IN VLin(TLCEval([k \in 1..(Order + 1) |-> hs[k - 1]]), a)

(* rate of change of the system near y *)
Rate(p, t, y) == RMaxAbs(JacMag(p, t, TLCEval([i \in 1..Len(y) |-> RAdd(RAbs(y[i]), "0.5")])))

(* number of pieces so that each is shorter than 1/4 of the time scale     *)
Pieces(p, t, y, h) ==
  LET w == RMul("4", RMul(RAbs(h), Rate(p, t, y)))
      k[j \in 0..6] == IF j = 6 THEN 64 ELSE IF RLe(w, RInt(2 ^ j)) THEN 2 ^ j ELSE k[j + 1]
  IN k[0]

Flow(p, t, y, h) ==
  LET m == Pieces(p, t, y, h)
      dh == RDiv(h, RInt(m))
      s[k \in 0..m] == IF k = 0 THEN y ELSE
        LET u == TLCEval(s[k - 1])
            v == RAdd(t, RMul(RInt(k - 1), dh))
        IN TLCEval(Taylor(p, v, u, dh))
  IN s[m]
=============================================================================
