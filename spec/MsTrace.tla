------------------------------ MODULE MsTrace ------------------------------
(***************************************************************************)
(* C17 and C18: linear multistep runs.  A run is a sequence of recorded    *)
(* points; the state is the index of the last point examined.  The start-  *)
(* up points follow the exact flow, every later one the formula of the     *)
(* method applied to the points recorded before it.                        *)
(***************************************************************************)
EXTENDS Flow, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
VARIABLES ti, k
vars == <<ti, k>>
tr == Traces[ti]
cf == tr.cfg
rs == tr.res

Say(clause, detail) ==
  PrintT("VIOL|" \o tr.id \o "|" \o ToString(k) \o "|" \o clause \o "|" \o detail)
Require(name, holds, detail) == IF holds THEN TRUE ELSE Say(name, detail)
VSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RSame(a[i], b[i])

Eps == "2.220446049250313e-16"
ABCoef == <<
  <<"1">>,
  <<"3/2", "-1/2">>,
  <<"23/12", "-16/12", "5/12">>,
  <<"55/24", "-59/24", "37/24", "-9/24">>,
  <<"1901/720", "-2774/720", "2616/720", "-1274/720", "251/720">> >>
BDFCoef == <<
  <<"-1">>,
  <<"-4/3", "1/3">>,
  <<"-18/11", "9/11", "-2/11">>,
  <<"-48/25", "36/25", "-16/25", "3/25">>,
  <<"-300/137", "300/137", "-200/137", "75/137", "-12/137">>,
  <<"-360/147", "450/147", "-400/147", "225/147", "-72/147", "10/147">> >>
BDFBeta == <<"1", "2/3", "6/11", "12/25", "60/137", "60/147">>

(* The formulas are what they are called: order q means exactness for      *)
(* polynomials up to degree q (y' = j s^(j-1) for y = s^j; step 1, the     *)
(* newest point at s = 0).                                                 *)
LOCAL Ipow(x, n) == LET f[i \in 0..n] == IF i = 0 THEN "1" ELSE RMul(x, f[i - 1]) IN f[n]
ASSUME ABOrders == \A q \in 1..5 : \A j \in 1..q :
  RNear(RSum([i \in 1..q |-> RMul(ABCoef[q][i], RMul(RInt(j), Ipow(RInt(1 - i), j - 1)))]), "1", "1e-30")
ASSUME BDFOrders == \A q \in 1..6 : \A j \in 0..q :
  RNear(RSum(<<"1">> \o [i \in 1..q |-> RMul(BDFCoef[q][i], Ipow(RInt(0 - i), j))]),
        RSum(<<"1">> \o [i \in 1..q |-> RMul(BDFCoef[q][i], Ipow(RInt(0 - i), j))]), "0") /\
  (* with the newest point (index n+1) at s = 0, the others at -1, -2, ..  *)
  RNear(RAdd(IF j = 0 THEN "1" ELSE "0",
             RSum([i \in 1..q |-> RMul(BDFCoef[q][i], Ipow(RInt(0 - i), j))])),
        IF j = 1 THEN BDFBeta[q] ELSE "0", "1e-30")

AB == cf.what = "ab"
MaxOrder == IF AB THEN 5 ELSE 6
OrderOK == cf.order >= 1 /\ cf.order <= MaxOrder
Start == IF AB THEN cf.order ELSE cf.order + 1     \* number of start-up points
(* step reduced to the length of the interval when it is larger            *)
Dt == LET full == RDbl(RSub(cf.t1, cf.t0)) IN
      IF RGt(RDbl(RAdd(cf.t0, cf.dt)), cf.t1) THEN full ELSE cf.dt
M == Len(rs.T)

TRow == Require("uniform grid",
  RNear(rs.T[k], RAdd(rs.T[k - 1], Dt), RMul(Eps, RMax(RAbs(rs.T[k]), RAbs(Dt)))),
  RShow(rs.T[k]) \o " after " \o RShow(rs.T[k - 1]))

StartRow ==
  LET e == TLCEval(Flow(cf.p, rs.T[k - 1], rs.Y[k - 1], Dt))
      s == RMax("1", RMax(RMaxAbs(e), RMaxAbs(rs.Y[k - 1]))) IN
  Require("start-up points are accurate solution values",
    \A i \in 1..Len(e) : RNear(rs.Y[k][i], e[i], RMul(cf.starttol, s)),
    ToString(rs.Y[k]) \o " instead of " \o ToString(e))

Hist(j) == rs.Y[k - 1 - j]      \* y_{n-j} when point k is y_{n+1}
Fs(j) == F(cf.p, rs.T[k - 1 - j], Hist(j))
FMs(j) == FMag(cf.p, RAbs(rs.T[k - 1 - j]), VAbs(Hist(j)))
Tol(mags) == TLCEval([i \in 1..Len(mags) |-> RMul("64", RMul(Eps, mags[i]))])
ABRow ==
  LET q == cf.order
      w == TLCEval([j \in 1..q |-> RMul(Dt, ABCoef[q][j])])
      e == VAdd(Hist(0), VLin(w, TLCEval([j \in 1..q |-> TLCEval(Fs(j - 1))])))
      mag == VAdd(VAbs(Hist(0)), VLinAbs(w, TLCEval([j \in 1..q |-> TLCEval(FMs(j - 1))]))) IN
  Require("y_n + dt sum(beta_i f_{n-i})", VNear(rs.Y[k], e, Tol(mag)),
    ToString(rs.Y[k]) \o " instead of " \o ToString(e))
BDFRow ==
  LET q == cf.order
      h == RMul(Dt, BDFBeta[q])
      ys == TLCEval([j \in 1..q |-> Hist(j - 1)])
      y == rs.Y[k]
      ya == VAbs(y)
      f == TLCEval(F(cf.p, rs.T[k], y))
      res == VSub(VAdd(y, VLin(BDFCoef[q], ys)), VScale(h, f))
      mag == VAdd(VAdd(ya, VLinAbs(BDFCoef[q], ys)), VScale(h, TLCEval(FMag(cf.p, RAbs(rs.T[k]), ya))))
      (* Newton accepts a correction below 1e-10 *)
      rate == TLCEval(Rate(cf.p, rs.T[k], ya))
      nt == RMul("2e-10", RAdd("1", RMul(h, rate)))
      tol == TLCEval([i \in 1..Len(y) |-> RAdd(nt, RMul("64", RMul(Eps, mag[i])))]) IN
  Require("y_{n+1} + sum(alpha_i y_{n-i}) = beta dt f(t_{n+1}, y_{n+1})",
    VNear(res, TLCEval([i \in 1..Len(y) |-> "0"]), tol), ToString(res))

Row ==
  /\ Require("finite", VFin(rs.Y[k]), ToString(rs.Y[k]))
  /\ VFin(rs.Y[k]) =>
       IF k = 1
       THEN /\ Require("starts at the start time", RSame(rs.T[1], cf.t0), RShow(rs.T[1]))
            /\ Require("starts at the initial state", VSame(rs.Y[1], cf.y0), ToString(rs.Y[1]))
       ELSE /\ TRow
            /\ Require("goes on only until the end time", k > Start => RLt(rs.T[k - 1], cf.t1), RShow(rs.T[k - 1]))
            /\ VFin(rs.Y[k - 1]) =>
                 IF k <= Start THEN (cf.flow /\ Pieces(cf.p, rs.T[k - 1], rs.Y[k - 1], Dt) < 64) => StartRow
                 ELSE IF \A j \in 0..(cf.order - 1) : VFin(Hist(j)) THEN (IF AB THEN ABRow ELSE BDFRow) ELSE TRUE
Ending ==
  /\ Require("times and states are aligned", Len(rs.Y) = M, ToString(<<M, Len(rs.Y)>>))
  /\ IF ~OrderOK
     THEN /\ Require("any other order is an error", rs.status # 0, ToString(rs.status))
          /\ Require("without a trajectory", M = 0, ToString(M))
     ELSE /\ Require("has the initial point", M >= 1, "")
          /\ Require("success means the end time is reached",
               rs.status = 0 => M >= Start /\ RGe(rs.T[M], cf.t1), ToString(M))
          /\ Require("succeeds when nothing is in the way", cf.expect = "ok" => rs.status = 0, ToString(rs.status))
          /\ Require("reports the failure", cf.expect = "fail" => rs.status # 0, ToString(rs.status))
          /\ Require("stops at the failure with the internal-solver error",
               (~AB /\ rs.status # 0 /\ M >= Start) => rs.status = 16, ToString(rs.status))
          /\ Require("keeps the points before the failure", cf.minpts <= M, ToString(M))
          /\ Require("the second run gives the same", rs.same, "")

Init == ti \in 1..Len(Traces) /\ k = 1
Next ==
  \/ /\ rs.end # "ok" /\ k = 1 /\ Say("the run returns", rs.end)
     /\ k' = -1 /\ UNCHANGED ti
  \/ /\ rs.end = "ok" /\ k > 0 /\ k <= M /\ Len(rs.Y) = M /\ OrderOK
     /\ Row /\ k' = k + 1 /\ UNCHANGED ti
  \/ /\ rs.end = "ok" /\ k > 0 /\ (k > M \/ Len(rs.Y) # M \/ ~OrderOK)
     /\ Ending /\ k' = -1 /\ UNCHANGED ti
Spec == Init /\ [][Next]_vars
=============================================================================
