------------------------------ MODULE Problem ------------------------------
(***************************************************************************)
(* The initial value problems the traces integrate: y' = F(t, y), with F a *)
(* quadratic polynomial in y whose coefficients are data of the trace,     *)
(*   F_i = c_i + d_i t + sum_j L_ij y_j + sum_jk Q_ijk y_j y_k             *)
(* (Q = << >> for linear problems).  This covers stiff linear systems,     *)
(* logistic growth, Lotka-Volterra, Lorenz, Robertson and the like, and    *)
(* lets the specification evaluate F and its Jacobian exactly.             *)
(***************************************************************************)
EXTENDS Num, Integers, TLC

F(p, t, y) ==
  TLCEval([i \in 1..Len(y) |->
    RSum(<<p.c[i], RMul(p.d[i], t), RDot(p.L[i], y),
           IF p.Q = <<>> THEN "0" ELSE RDot(y, TLCEval(MatVec(p.Q[i], y)))>>)])

(* sum of the magnitudes of the terms of F at arguments bounded by tm, ym  *)
FMag(p, tm, ym) ==
  TLCEval([i \in 1..Len(ym) |->
    RSum(<<RAbs(p.c[i]), RAbs(RMul(p.d[i], tm)), RDotAbs(p.L[i], ym),
           IF p.Q = <<>> THEN "0" ELSE RDotAbs(ym, TLCEval(MatVecAbs(p.Q[i], ym)))>>)])

(* rows of the Jacobian dF/dy *)
Jac(p, t, y) ==
  LET n == Len(y) IN
  IF p.Q = <<>> THEN p.L ELSE
  TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |->
     RAdd(p.L[i][j],
          RAdd(RDot(p.Q[i][j], y),
               RDot(TLCEval([k \in 1..n |-> p.Q[i][k][j]]), y)))])])

JacMag(p, t, ym) ==   \* row sums of the magnitudes
  LET n == Len(ym) IN
  TLCEval([i \in 1..n |->
     RSum(TLCEval([j \in 1..n |->
       IF p.Q = <<>> THEN RAbs(p.L[i][j]) ELSE
       RSum(<<RAbs(p.L[i][j]), RDotAbs(p.Q[i][j], ym),
              RDotAbs(TLCEval([k \in 1..n |-> p.Q[i][k][j]]), ym)>>)]))])
=============================================================================
