---------------------------- MODULE NewtonTrace ----------------------------
(***************************************************************************)
(* C15, C16, C19, C28: root finding as a state machine over the evaluations     *)
(* observed by the harness.  The k-th evaluation of the function is the    *)
(* k-th iterate x[k] with residual r[k]; the specification carries         *)
(*   cur   the index of the current iterate                                *)
(*   B, u  Broyden's inverse Jacobian and its relative uncertainty in      *)
(*         double precision                                                *)
(* and says what the next iterate and, at the end, the report must be.     *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
VARIABLES ti, cur, B, u
vars == <<ti, cur, B, u>>
tr == Traces[ti]

Say(clause, detail) ==
  PrintT("VIOL|" \o tr.id \o "|" \o ToString(cur) \o "|" \o clause \o "|" \o detail)
Require(name, holds, detail) == IF holds THEN TRUE ELSE Say(name, detail)
VSame(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : RSame(a[k], b[k])
(* the same bits, NaN included *)
VIs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k] \/ RSame(a[k], b[k])

Eps == "2.220446049250313e-16"
Huge == "1e140"            \* squares of larger numbers overflow
Norm(v) == RSqrt(RDot(v, v))
N == Len(tr.x0)

FE == tr.f                 \* evaluations of the function: [y, r]
X(k) == FE[k].y
R(k) == FE[k].r
Ones == TLCEval([i \in 1..N |-> "1"])

-----------------------------------------------------------------------------
(* Newton                                                                  *)
(* the Jacobian to use at iterate k: the one observed there                *)
JAt(k) ==
  LET y == IF tr.o.refresh THEN X(k) ELSE X(1)
      at == {m \in 1..Len(tr.j) : VIs(tr.j[m].y, y)}
      \* a faulty Jacobian may differ between two visits of the same point
      q == IF tr.o.refresh /\ k \in at THEN k ELSE CHOOSE m \in at : TRUE IN
  IF at = {} THEN <<>> ELSE tr.j[q].r
NormI(A) == RMaxAbs(TLCEval([i \in 1..Len(A) |-> RDotAbs(A[i], TLCEval([j \in 1..Len(A) |-> "1"]))]))
Cond(A) ==
  LET e(i) == TLCEval([j \in 1..N |-> IF i = j THEN "1" ELSE "0"])
      (* rows of the transposed inverse: solutions for unit vectors         *)
      cols == TLCEval([i \in 1..N |-> VSolve(A, e(i))])
      rowsum == TLCEval([r \in 1..N |-> RSum(TLCEval([i \in 1..N |-> RAbs(cols[i][r])]))])
  IN RMul(NormI(A), RMaxAbs(rowsum))
Lambda(k) ==
  IF tr.what = "broyden" THEN RDiv("1", RSqrt(RAdd("1", RDot(R(k), R(k)))))
  ELSE IF tr.o.limit THEN RDiv("1", RAdd("1", RDot(R(k), R(k)))) ELSE "1"
(* limited to the maximum step *)
Limit(step) ==
  LET n == Norm(step) IN
  IF RGt(tr.o.maxstep, "0") /\ RGt(n, tr.o.maxstep)
  THEN VScale(RDiv(tr.o.maxstep, n), step) ELSE step
NewtonStep(k) ==  \* the undamped correction
  VScale("-1", VSolve(JAt(k), R(k)))
Near(v, w, tol) == \A i \in 1..N : RNear(v[i], w[i], RAdd(tol, RMul("4", RMul(Eps, RMax(RAbs(v[i]), RAbs(w[i]))))))

(* is iterate k usable: finite, Jacobian finite and well conditioned       *)
Usable(k) ==
  LET A == JAt(k) IN
  /\ VFin(X(k)) /\ VFin(R(k)) /\ RLt(RMaxAbs(R(k)), Huge)
  /\ A # <<>> /\ \A i \in 1..N : VFin(A[i])
  /\ RLt(Cond(A), "1e9")

NewtonMove(k) ==
  /\ Require("the Jacobian is taken at the current iterate, or at the initial guess",
       JAt(k) # <<>>, ToString(X(k)))
  /\ Usable(k) =>
       LET d == TLCEval(NewtonStep(k))
           step == TLCEval(Limit(VScale(Lambda(k), d)))
           tol == RMul(RMul("256", RMul(Eps, Cond(JAt(k)))), Norm(step)) IN
       Require("x_{k+1} = x_k - lambda inv(J) F(x_k)",
         Near(X(k + 1), VAdd(X(k), step), RAdd(tol, RMul("8", RMul(Eps, RMaxAbs(X(k)))))),
         ToString(X(k + 1)) \o " instead of " \o ToString(VAdd(X(k), step)))
Moved(k) == Norm(VSub(X(k + 1), X(k)))
ShortEnough(k) ==
  Require("never moves farther than the maximum step",
    (RGt(tr.o.maxstep, "0") /\ VFin(X(k + 1)) /\ VFin(X(k))) =>
       RLe(Moved(k), RAdd(RMul(tr.o.maxstep, "1.0000000000001"), RMul("16", RMul(Eps, RMaxAbs(X(k)))))),
    RShow(Moved(k)))

(* the undamped, unlimited correction that led from k to k + 1 *)
Corr(k) == IF Usable(k) THEN RMaxAbs(NewtonStep(k)) ELSE "NaN"
Clearly(a, b) == RLt(RMul(a, "1.001"), b)     \* a < b, beyond rounding
NewtonGoesOn(k) ==   \* k -> k + 1 was not the last iteration
  Require("stops when the correction is below the tolerance",
    ~(Clearly(Corr(k), tr.o.ndx) /\ VFin(R(k + 1))), RShow(Corr(k)))

St == tr.res.st
Last == Len(FE)
NewtonReport ==
  LET n == Last - 1
      ok == St.conv = 0
      res == Norm(R(Last)) IN
  /\ Require("status is one of the codes", St.conv \in 0..4, ToString(St.conv))
  /\ Require("number of iterations", St.iters = n, ToString(St.iters) \o " reported, made " \o ToString(n))
  /\ Require("at most the allowed number of iterations", n <= tr.o.maxit, ToString(n))
  /\ Require("residual of the last iterate",
       IF VFin(R(Last)) /\ RLt(RMaxAbs(R(Last)), Huge)
       THEN RNear(St.res, res, RMul("1e-13", res)) ELSE VFin(R(Last)) \/ ~RFin(St.res),
       RShow(St.res) \o " instead of " \o RShow(res))
  /\ Require("success means that the last correction is below the tolerance",
       ok => n > 0 /\ (Usable(n) => ~Clearly(tr.o.ndx, Corr(n))) /\ VFin(X(Last)), IF n > 0 THEN RShow(Corr(n)) ELSE "")
  /\ Require("success means that the residual is finite", ok => RFin(St.res) /\ VFin(R(Last)), RShow(St.res))
  /\ Require("converged runs are successes",
       (n > 0 /\ Usable(n) /\ Clearly(Corr(n), tr.o.ndx) /\ VFin(R(Last)) /\ RLt(RMaxAbs(R(Last)), Huge)) => ok, ToString(St))
  /\ Require("iteration limit is reported when reached only", St.conv = 3 => n = tr.o.maxit, ToString(St))
  /\ Require("success returns the last iterate", ok => VSame(tr.res.x, X(Last)), ToString(tr.res.x))
  /\ Require("failure returns the initial guess", ~ok => VIs(tr.res.x, tr.x0), ToString(tr.res.x))

-----------------------------------------------------------------------------
(* Broyden                                                                 *)
Eye == TLCEval([i \in 1..N |-> TLCEval([j \in 1..N |-> IF i = j THEN "1" ELSE "0"])])
NormF(A) == RSqrt(RSum(TLCEval([i \in 1..N |-> RDot(A[i], A[i])])))
RowMat(v, A) == TLCEval([j \in 1..N |-> RDot(v, TLCEval([i \in 1..N |-> A[i][j]]))])
Known == B # <<>> /\ RLt(u, "1e-5")
BroydenStep(k) == Limit(VScale(RNeg(Lambda(k)), TLCEval(MatVec(B, R(k)))))
BroydenMove(k) ==
  (Known /\ VFin(X(k)) /\ VFin(R(k)) /\ RLt(RMaxAbs(R(k)), Huge)) =>
    LET st == TLCEval(BroydenStep(k))
        tol == RMul(RAdd(u, RMul("32", Eps)), RMul(Lambda(k), RMul(NormF(B), Norm(R(k))))) IN
    Require("x_{k+1} = x_k - lambda B F(x_k)",
      Near(X(k + 1), VAdd(X(k), st), RAdd(tol, RMul("8", RMul(Eps, RMaxAbs(X(k)))))),
      ToString(X(k + 1)) \o " instead of " \o ToString(VAdd(X(k), st)))
(* B is only known up to what double precision does to it: u              *)
BroydenUpdate(k) ==
  LET dx == TLCEval(VSub(X(k + 1), X(k)))
      df == TLCEval(VSub(R(k + 1), R(k)))
      ok == Known /\ VFin(dx) /\ VFin(df) /\ RLt(RMaxAbs(df), Huge)
      xB == TLCEval(RowMat(dx, B))
      nrm == RDot(xB, df)
      left == TLCEval(VSub(dx, TLCEval(MatVec(B, df))))
      B1 == TLCEval([i \in 1..N |-> TLCEval([j \in 1..N |->
              RAdd(B[i][j], RDiv(RMul(left[i], xB[j]), nrm))])])
      bd == RMul(RMul(Norm(dx), NormF(B)), RMul(Norm(df), NormF(B)))   \* >= |nrm| |B|
      g == RAdd("1", RDiv(bd, RMul(RAbs(nrm), NormF(B))))
      grow == RMul(g, RMul(g, RDiv(NormF(B), NormF(B1))))
      (* the differences cancel *)
      can == RMul(RMul("2", Eps), RAdd(RDiv(RMaxAbs(VAdd(VAbs(X(k)), VAbs(X(k + 1)))), Norm(dx)),
                                       RDiv(RMaxAbs(VAdd(VAbs(R(k)), VAbs(R(k + 1)))), Norm(df))))
      u1 == RMul(RAdd(RAdd(u, can), RMul("16", Eps)), RMax(RMul("4", grow), RMul("4", RMul(g, g))))
  IN IF ok /\ RGt(RAbs(nrm), "0") /\ RFin(u1) THEN <<B1, RMul(u1, "1")>> ELSE <<<<>>, "1">>

Dist(k) == RMaxAbs(VSub(X(k + 1), X(k)))
BroydenGoesOn(k) ==
  Require("stops when the step or the residual is below its tolerance",
    ~(VFin(R(k + 1)) /\ (Clearly(RAdd(Dist(k), RMul("8", RMul(Eps, RMaxAbs(X(k))))), tr.o.ndx) \/ Clearly(Norm(R(k + 1)), tr.o.ntol))),
    RShow(Dist(k)))
BroydenReport ==
  LET n == Last - 1
      ok == St.conv = 0
      res == Norm(R(Last))
      step == IF n > 0 THEN Dist(n) ELSE "NaN"
      low == RSub(step, RAdd(RMul("8", RMul(Eps, RMaxAbs(X(Last)))), RMul("1e-12", step))) IN
  /\ Require("status is success, iteration limit or generic error", St.conv \in {0, 3, 4}, ToString(St.conv))
  /\ Require("residual of the returned point",
       IF VFin(R(Last)) /\ RLt(RMaxAbs(R(Last)), Huge)
       THEN RNear(St.res, res, RMul("1e-13", res)) ELSE VFin(R(Last)) \/ ~RFin(St.res),
       RShow(St.res) \o " instead of " \o RShow(res))
  /\ Require("returns the last iterate", VIs(tr.res.x, X(Last)), ToString(tr.res.x))
  /\ Require("never more than the iteration limit", St.iters <= tr.o.maxit /\ Last <= tr.o.maxit, ToString(St.iters))
  /\ Require("number of iterations", St.iters = Last, ToString(St.iters))
  /\ Require("success means that the step or the residual is below its tolerance",
       ok => /\ RFin(St.res)
             /\ (n > 0 /\ RLe(low, tr.o.ndx)) \/ RLe(RMul(res, "0.9999999"), tr.o.ntol),
       RShow(step) \o " " \o RShow(res))
  /\ Require("converged runs are successes",
       (n > 0 /\ VFin(R(Last)) /\ RLt(RMaxAbs(R(Last)), Huge) /\
          (Clearly(RAdd(step, RMul("8", RMul(Eps, RMaxAbs(X(Last))))), tr.o.ndx) \/ Clearly(res, tr.o.ntol))) => ok, ToString(St))
  /\ Require("iteration limit is reported when reached only", St.conv = 3 => Last = tr.o.maxit, ToString(St))
  /\ Require("non-finite values are a generic error", (~VFin(R(Last)) => St.conv = 4) /\ (St.conv = 4 => ~RFin(St.res)), ToString(St))

-----------------------------------------------------------------------------
(* C19                                                                     *)
Shift(y, j, h, sgn) ==
  TLCEval([i \in 1..N |-> IF i = j THEN RDbl(IF sgn THEN RAdd(y[i], h) ELSE RSub(y[i], h)) ELSE y[i]])
(* y shifted in component j, up to rounding *)
EvalsAt(y, j) == {m \in 1..Len(FE) : \A i \in 1..N :
  RNear(FE[m].y[i], y[i], IF i = j THEN RMul(Eps, RAbs(y[i])) ELSE "0")}
CentralDifference ==
  \A j \in 1..N :
    LET p == EvalsAt(Shift(tr.x0, j, tr.h, TRUE), j)
        m == EvalsAt(Shift(tr.x0, j, tr.h, FALSE), j) IN
    /\ Require("evaluates at y + h e_j and y - h e_j", p # {} /\ m # {}, "j = " \o ToString(j))
    /\ (p # {} /\ m # {}) =>
         LET fp == FE[CHOOSE x \in p : TRUE].r
             fm == FE[CHOOSE x \in m : TRUE].r IN
         \A i \in 1..N :
           LET e == RDiv(RSub(fp[i], fm[i]), RMul("2", tr.h)) IN
           Require("column j is the central difference",
             IF ~RFin(fp[i]) \/ ~RFin(fm[i]) THEN ~RFin(tr.res.J[i][j])
             ELSE RNear(tr.res.J[i][j], e, RAdd(RMul("8", RMul(Eps, RAbs(e))), RDiv(RMul("4", RMul(Eps, RMax(RAbs(fp[i]), RAbs(fm[i])))), tr.h))),
             ToString(<<i, j>>) \o " " \o RShow(tr.res.J[i][j]) \o " instead of " \o RShow(e))
JacReport ==
  /\ Require("size", Len(tr.res.J) = N /\ \A i \in 1..N : Len(tr.res.J[i]) = N, "")
  /\ CentralDifference
  /\ Require("exact for quadratic functions",
       tr.quad =>
         \A i, j \in 1..N : RNear(tr.res.J[i][j], tr.exact[i][j], tr.tol),
       ToString(tr.res.J) \o " instead of " \o ToString(tr.exact))
VerifyReport ==
  /\ Require("accepts the right Jacobian", tr.right => tr.res.agree, "")
  /\ Require("verifier accepts a Jacobian that disagrees", tr.wrong => ~tr.res.agree, "")

-----------------------------------------------------------------------------
(* C28: tr.text are the reports written by the run that was not quiet,     *)
(* [k, max, nums, x]; the k-th one is about the k-th iterate.  Newton's    *)
(* method reports the last iterate, too.                                   *)
Shows(p, v, d) == IF RFin(v) /\ RLt(RAbs(v), "1e290") THEN RNear(p, v, RAdd(RMul(d, RAbs(v)), "1e-320")) ELSE TRUE
ReportOf(k) ==
  LET p == tr.text[k]
      it == IF tr.of = "newton" THEN k - 1 ELSE k IN
  /\ Require("report: the iteration and the limit", p.k = it /\ p.max = tr.o.maxit, ToString(<<p.k, p.max>>))
  /\ Require("report: the iterate",
       Len(p.x) = N /\ \A i \in 1..N : IF RFin(X(k)[i]) THEN Shows(p.x[i], X(k)[i], "6e-6") ELSE ~RFin(p.x[i]), ToString(p.x))
  /\ Require("report: the square of the residual",
       IF VFin(R(k)) /\ RLt(RMaxAbs(R(k)), Huge)
       THEN Len(p.nums) > 0 /\ Shows(p.nums[1], RDot(R(k), R(k)), "6e-7") ELSE TRUE, ToString(p.nums))
  /\ (tr.of = "broyden" /\ k > 1 /\ VFin(X(k)) /\ VFin(X(k - 1))) =>
       Require("report: the length of the step",
         Len(p.nums) > 1 /\ RNear(p.nums[2], Dist(k - 1),
            RAdd(RMul("6e-7", Dist(k - 1)), RMul("8", RMul(Eps, RMaxAbs(X(k)))))), ToString(p.nums))
  /\ (tr.of = "newton" /\ k > 1 /\ Usable(k - 1)) =>
       Require("report: the correction",
         Len(p.nums) > 2 /\
         RNear(p.nums[2], Corr(k - 1),
               RMul(RAdd("6e-7", RMul(RMul("256", RMul("4", Eps)), Cond(JAt(k - 1)))), Corr(k - 1))), ToString(p.nums))
  /\ (tr.of = "newton" /\ k > 1) =>
       Require("report: the correction before",
         Len(p.nums) > 2 /\ p.nums[3] = (IF k > 2 THEN tr.text[k - 1].nums[2] ELSE p.nums[3]), ToString(p.nums))
IterationReports ==
  /\ Require("one report for every iteration",
       Len(tr.text) = IF tr.of = "newton" THEN Last ELSE Last - 1, ToString(Len(tr.text)))
  /\ \A k \in 1..Len(tr.text) : k <= Last => ReportOf(k)
  /\ Require("no report when quiet", tr.quiettext = 0, ToString(tr.quiettext))
  /\ Require("reporting does not change the solution",
       VIs(tr.res.x, tr.quiet.x) /\ tr.res.st.conv = tr.quiet.st.conv /\ tr.res.st.iters = tr.quiet.st.iters
       /\ VIs(<<tr.res.st.res>>, <<tr.quiet.st.res>>), ToString(tr.quiet.st))

-----------------------------------------------------------------------------
Init == /\ ti \in 1..Len(Traces)
        /\ cur = 1
        /\ B = IF Traces[ti].what = "broyden" THEN LET n == Len(Traces[ti].x0) IN
                 [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]] ELSE <<>>
        /\ u = "1e-16"
Move ==
  /\ tr.res.end = "ok" /\ tr.what \in {"newton", "broyden"}
  /\ cur > 0 /\ cur < Last
  /\ cur = 1 => Require("starts from the initial guess", VIs(X(1), tr.x0), ToString(X(1)))
  /\ ShortEnough(cur)
  /\ IF tr.what = "newton"
     THEN /\ NewtonMove(cur)
          /\ cur + 1 < Last => NewtonGoesOn(cur)
          /\ UNCHANGED <<B, u>>
     ELSE LET bu == TLCEval(BroydenUpdate(cur)) IN
          /\ BroydenMove(cur)
          /\ cur + 1 < Last => BroydenGoesOn(cur)
          /\ B' = bu[1] /\ u' = bu[2]
  /\ cur' = cur + 1 /\ UNCHANGED ti
Report ==
  /\ cur > 0 /\ (tr.res.end # "ok" \/ tr.what \notin {"newton", "broyden"} \/ cur >= Last)
  /\ IF tr.res.end # "ok" THEN Say("the call returns", tr.res.end)
     ELSE CASE tr.what = "newton" ->
                 IF Last = 0 THEN Say("evaluates the function", "") ELSE NewtonReport
            [] tr.what = "broyden" ->
                 IF Last = 0 THEN Say("evaluates the function", "") ELSE BroydenReport
            [] tr.what = "reports" ->
                 IF tr.quiet.end # "ok" THEN Say("the quiet call returns", tr.quiet.end)
                 ELSE IF Last = 0 THEN Say("evaluates the function", "") ELSE IterationReports
            [] tr.what = "jac" -> JacReport
            [] OTHER -> VerifyReport
  /\ cur' = -cur - 1 /\ UNCHANGED <<ti, B, u>>
Next == Move \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
