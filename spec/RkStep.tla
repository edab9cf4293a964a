------------------------------- MODULE RkStep ------------------------------
(***************************************************************************)
(* One Runge-Kutta step as a relation between the state it starts from,    *)
(* its length, its stages and its results, with the rounding errors a      *)
(* double precision implementation may make.  All tolerances are a small   *)
(* multiple of the unit roundoff times the magnitudes that occur in the    *)
(* formula, plus (for the length of the step, which is observed as a       *)
(* difference of times) the rounding of the times.                         *)
(***************************************************************************)
EXTENDS Problem, Tableau

Eps == "2.3e-16"
(* relative accuracy of a step of length h ending at time t                *)
RelAcc(mult, t, h) == RMul(RMul(mult, Eps), RAdd("1", RDiv(RAdd(RAbs(t), h), h)))

Stages(K, n) == TLCEval([i \in 1..(Len(K) \div n) |-> SubSeq(K, (i - 1) * n + 1, i * n)])
ScaleRow(h, row) == VScale(h, row)

(* argument of stage i and its magnitude *)
StageArg(tab, i, y, h, ks) == VAdd(y, VLin(VScale(h, tab.A[i]), ks))
StageMag(tab, i, y, h, ks) == VAdd(VAbs(y), VLinAbs(VScale(h, tab.A[i]), ks))

(* k_i = f(t + c_i h, y + h sum_j a_ij k_j), up to rounding *)
(* (extra: further magnitudes that went into the argument)                 *)
StageOK(p, tab, i, t, y, h, ks, rel, extra) ==
  LET ti  == RAdd(t, RMul(tab.c[i], h))
      arg == StageArg(tab, i, y, h, ks)
      mag == VAdd(StageMag(tab, i, y, h, ks), extra)
      tol == VScale(rel, FMag(p, RAdd(RAbs(t), h), mag))
  IN (* beyond this the double precision value overflows *)
     RLt("1e140", RMaxAbs(mag)) \/
     VNear(ks[i], F(p, ti, arg), VAdd(tol, TLCEval([l \in 1..Len(y) |-> "1e-290"])))

(* y_new = y + h sum b_i k_i *)
UpdateOK(tab, y, h, ks, ynew, rel) ==
  VNear(ynew, VAdd(y, VLin(VScale(h, tab.b), ks)),
        VScale(rel, VAdd(VAbs(y), VAdd(VAbs(ynew), VLinAbs(VScale(h, tab.b), ks)))))

(* h sum (b2_i - b_i) k_i and the rounding error it may have *)
ErrVec(tab, h, ks)  == VLin(VScale(h, VSub(tab.b2, tab.b)), ks)
ErrTol(tab, h, ks, rel) ==
  VScale(rel, VAdd(VLinAbs(VScale(h, tab.b2), ks), VLinAbs(VScale(h, tab.b), ks)))

(* the error norm *)
Scales(atol, rtol, y, ynew) ==
  TLCEval([i \in 1..Len(y) |->
    RAdd(atol, RMul(rtol, RMax(RAbs(y[i]), RAbs(ynew[i]))))])
Norm(e, sc) ==
  LET q == TLCEval([i \in 1..Len(e) |-> RDiv(e[i], sc[i])]) IN
  RSqrt(RDiv(RDot(q, q), RInt(Len(e))))
Floor == "1e-17"     \* norms below this are reported as this

(* factor of the step size controller for a norm err, limited to mx *)
Factor(err, q, mx) ==
  RMul("0.9", RMin(mx, RPow(RMax(err, Floor), RDiv("-1", RInt(q + 1)))))
=============================================================================
