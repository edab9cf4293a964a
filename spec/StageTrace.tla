----------------------------- MODULE StageTrace -----------------------------
(***************************************************************************)
(* The iteration for the stages of an implicit Runge-Kutta step, as the    *)
(* user sees it through the calls of f and of its Jacobian.  In terms of   *)
(* Y_i = h sum_j a_ij k_j the stage equations are                          *)
(*   R(Y) = Y - h (A (x) I) F = 0,   F_i = f(t + c_i h, y + Y_i);          *)
(* starting from Y = 0 the simplified Newton iteration solves              *)
(*   (I - h A (x) J) D = -R(Y_m),   Y_{m+1} = Y_m + D,                     *)
(* with the Jacobian J at (t, y), until |R| < tol or |D| < dx_delta, with  *)
(* at most maxit evaluations of the stages, J being evaluated anew after   *)
(* every refresh_jac-th correction that did not suffice.                   *)
(*                                                                         *)
(* An attempt is a sequence of batches of s calls of f; the iterates Y_m   *)
(* are their arguments minus y.  RkTrace tells the attempts apart; here    *)
(* each of them is taken to pieces.                                        *)
(***************************************************************************)
EXTENDS RkTrace

Jev  == res.jv          \* calls of the Jacobian: at (calls of f before), t, y, r
Sing == \E j \in 1..Ns : \A q \in 1..Ns : RSame(tab.A[j][q], "0")

(* order of the stages in the batch of calls at p, <<>> if it is not one   *)
BatchOrder(p, last, t, h) ==
  IF p + Ns - 1 > last THEN <<>>
  ELSE LET is(q, r) == RNear(Ev[p + r - 1].t, RAdd(t, RMul(tab.c[q], h)), Fuzz(t, h)) IN
       IF \A q \in 1..Ns : is(q, q) THEN TLCEval([q \in 1..Ns |-> q])
       ELSE IF \A q \in 1..Ns : \E r \in 1..Ns : is(q, r)
       THEN TLCEval([q \in 1..Ns |-> CHOOSE r \in 1..Ns : is(q, r)])
       ELSE <<>>
RECURSIVE Batches(_, _, _, _)
Batches(p, last, t, h) ==
  LET o == BatchOrder(p, last, t, h) IN
  IF o = <<>> THEN <<>>
  ELSE << [p |-> p, o |-> o] >> \o Batches(p + Ns, last, t, h)

ArgsOf(b) == TLCEval([q \in 1..Ns |-> Ev[b.p + b.o[q] - 1].y])
(* a batch at the arguments of the one before it: where the stages cannot  *)
(* be had from Y, f is evaluated once more at the end; and with one stage  *)
(* at the end of the step, f at the state reached looks like a batch       *)
Trim(bs) ==
  IF (Sing \/ Ns = 1) /\ Len(bs) > 1 /\ ArgsOf(bs[Len(bs)]) = ArgsOf(bs[Len(bs) - 1])
  THEN SubSeq(bs, 1, Len(bs) - 1) ELSE bs

Norm2(u) == RSqrt(RDot(u, u))
(* calls of the Jacobian after at least a and at most b calls of f *)
JIn(a, b) == {x \in 1..Len(Jev) : Jev[x].at >= a /\ Jev[x].at <= b}
JLast(b)  == LET js == JIn(0, b) IN
             IF js = {} THEN 0 ELSE CHOOSE x \in js : \A z \in js : z <= x
HereJ(x, t, y) == RSame(Jev[x].t, t) /\ VSame(Jev[x].y, y)

(* what the iteration looked like at batch b: Y, F, R with its rounding    *)
Look(b, t, h, y, rel) ==
  LET a == ArgsOf(b)
      Y == TLCEval([q \in 1..Ns |-> VSub(a[q], y)])
      F_ == TLCEval([q \in 1..Ns |-> Ev[b.p + b.o[q] - 1].r])
      fin == \A q \in 1..Ns : VFin(F_[q]) /\ VFin(a[q])
      R == IF fin THEN TLCEval([q \in 1..Ns |-> VSub(Y[q], VLin(VScale(h, tab.A[q]), F_))]) ELSE <<>>
      dY == TLCEval([q \in 1..Ns |-> VScale("1e-15", VAdd(VAbs(y), VAbs(a[q])))])
      dR == IF fin THEN TLCEval([q \in 1..Ns |->
                VAdd(dY[q], VScale(rel, VAdd(VAbs(Y[q]), VLinAbs(VScale(h, tab.A[q]), F_))))])
            ELSE <<>>
  IN [a |-> a, Y |-> Y, fin |-> fin, R |-> R, dY |-> dY, dR |-> dR,
      rn |-> IF fin THEN Norm2(Cat(R)) ELSE "NaN", drn |-> IF fin THEN Norm2(Cat(dR)) ELSE "NaN"]

(* y -> (I - h A (x) J) y, and the same with magnitudes *)
Apply(J, h, D) ==
  LET JD == TLCEval([q \in 1..Ns |-> TLCEval(MatVec(J, D[q]))]) IN
  TLCEval([q \in 1..Ns |-> VSub(D[q], VLin(VScale(h, tab.A[q]), JD))])
ApplyMag(J, h, D) ==
  LET JD == TLCEval([q \in 1..Ns |-> TLCEval(MatVecAbs(J, D[q]))]) IN
  TLCEval([q \in 1..Ns |-> VAdd(VAbs(D[q]), VLinAbs(VScale(h, tab.A[q]), JD))])

(* the m-th correction, from look u to look v with the Jacobian J *)
CorrectionOK(u, v, J, h, rel) ==
  LET D   == TLCEval([q \in 1..Ns |-> VSub(v.Y[q], u.Y[q])])
      amp == TLCEval([q \in 1..Ns |-> VAdd(u.dY[q], v.dY[q])])
      l   == Apply(J, h, D)
      mag == ApplyMag(J, h, D)
      top == RMul(rel, RMaxAbs(Cat(mag)))   \* of the elimination
      rnd == ApplyMag(J, h, amp)
  IN \A q \in 1..Ns :
       VNear(l[q], VScale("-1", u.R[q]),
             VAdd(TLCEval([c \in 1..n |-> top]),
                  VAdd(VScale(rel, mag[q]), VAdd(rnd[q], u.dR[q]))))

(* "yes", "no" or "?": did the iteration stop as converged at look v, having *)
(* come from look u?                                                          *)
Conv(u, v) ==
  IF ~v.fin THEN "no" ELSE
  LET D  == Norm2(Cat(TLCEval([q \in 1..Ns |-> VSub(v.Y[q], u.Y[q])])))
      dD == Norm2(Cat(TLCEval([q \in 1..Ns |-> VAdd(u.dY[q], v.dY[q])])))
  IN IF \/ RLt(RMul(RAdd(v.rn, v.drn), "1.000000000001"), cfg.ntol)
        \/ RLt(RMul(RAdd(D, dD), "1.000000000001"), cfg.ndx) THEN "yes"
     ELSE IF /\ RLt(RMul(cfg.ntol, "1.000000000001"), RSub(v.rn, v.drn))
             /\ RLt(RMul(cfg.ndx, "1.000000000001"), RSub(D, dD)) THEN "no"
     ELSE "?"

(* q: bookkeeping of the run: lim (evaluations allowed, 0 if no longer     *)
(* known), ext (accepted steps when it was last extended), and how many    *)
(* attempts certainly / possibly were ended by which cause                 *)
Q0 == [lim |-> cfg.nmaxit, ext |-> 0, okl |-> 0, okh |-> 0, maxl |-> 0, maxh |-> 0, errl |-> 0, errh |-> 0, blur |-> FALSE]

Due(m) == cfg.nrefresh > 0 /\ m % cfg.nrefresh = 0

StageAttempt(q0, a) ==
  LET k   == w.k
      t   == res.T[k]
      y   == res.Y[k]
      st  == FirstStart(w.pos + 1)
      p1  == w.cand[st]
      pn  == IF a.next >= Len(w.cand) THEN Calls ELSE w.cand[a.next + 1] - 1
      h   == IF a.acc THEN RSub(res.T[k + 1], t) ELSE a.h
      rel == RelAcc("2000", t, h)
      bs0 == TLCEval(Batches(p1, pn, t, h))
      bs  == TLCEval(Trim(bs0))
      B   == Len(bs)
      cut == B # Len(bs0)
      lk  == TLCEval([m \in 1..B |-> Look(bs[m], t, h, y, rel)])
      cv  == TLCEval([m \in 1..B |-> IF m = 1 THEN "no" ELSE Conv(lk[m - 1], lk[m])])
      end(m) == bs[m].p + Ns - 1            \* calls of f up to the end of batch m
      jac(m) == JLast(bs[m + 1].p - 1)       \* the one used for the correction after batch m
      jfin(x) == x > 0 => \A r \in 1..n : VFin(Jev[x].r[r])
      cnt(m) == Cardinality(JIn(end(m), end(m)))
      stopnf == B > 0 /\ (~lk[B].fin \/ RLt("1e140", lk[B].rn) \/ \E x \in JIn(end(B), end(B)) \cup {JLast(end(B) - 1)} : ~jfin(x))
      over   == q0.lim > 0 /\ B >= q0.lim
      ended  == IF B = 0 THEN "no" ELSE IF cut /\ cv[B] = "no" THEN "?" ELSE cv[B]
      failL  == ended = "no"       \* certainly failed
      failH  == ended # "yes"
      show(m) == ToString(m) \o " at t=" \o RShow(t)
      (* shorter steps are lost in the rounding of the times *)
      blur == RLt("1e-6", rel)
  IN [h |-> h, blur |-> blur, ended |-> IF blur \/ B = 0 THEN "?" ELSE ended, iters |-> B - 1,
      Y |-> IF B > 0 THEN lk[B].Y ELSE <<>>, dY |-> IF B > 0 THEN lk[B].dY ELSE <<>>,
      ks |-> IF Sing /\ Len(bs0) > 0
             THEN LET b == bs0[Len(bs0)] IN TLCEval([q \in 1..Ns |-> Ev[b.p + b.o[q] - 1].r]) ELSE <<>>,
      clauses |-> IF blur \/ Check # "C30" THEN <<>> ELSE
       << C("stages are evaluated", B >= 1, RShow(t)),
          C("jacobian evaluated where the attempt starts",
             B > 1 => \E x \in JIn(p1 - 1, end(1)) : HereJ(x, t, y), RShow(t)),
          C("jacobian evaluated nowhere else",
             B > 1 => \A x \in JIn(p1, pn - 1) : HereJ(x, t, y), RShow(t)),
          C("jacobian evaluated once to begin with",
             B > 1 => Cardinality(JIn(p1, end(1))) <= 1 /\ Cardinality(JIn(p1 - 1, end(1))) <= 2, RShow(t)) >>
       \o [m \in 1..(IF B > 2 THEN B - 2 ELSE 0) |->
            C("jacobian refreshed when due", cnt(m + 1) = (IF Due(m) THEN 1 ELSE 0), show(m))]
       \o [m \in 1..(IF B > 1 THEN B - 1 ELSE 0) |->
            C("goes on only while everything is finite", lk[m].fin /\ jfin(jac(m)), show(m))]
       \o [m \in 1..(IF B > 1 THEN B - 1 ELSE 0) |->
            C("goes on only while not converged", cv[m] # "yes", show(m))]
       \o [m \in 1..(IF B > 1 THEN B - 1 ELSE 0) |->
            C("correction solves the linear system",
              (lk[m].fin /\ lk[m + 1].fin /\ jac(m) > 0 /\ jfin(jac(m))) =>
                 CorrectionOK(lk[m], lk[m + 1], Jev[jac(m)].r, h, rel), show(m))]
       \o << C("within the limit of evaluations", q0.lim > 0 => B <= q0.lim, ToString(B)),
             C("gives up only at the limit or on non-finite values",
               (ended = "no" /\ B < (IF q0.lim > 0 THEN q0.lim ELSE cfg.nmaxit)) => stopnf, ToString(B)),
             C("accepted only if converged", a.acc => ended # "no", RShow(t)),
             C("stages are those of the last iterate",
               (a.acc /\ ~Sing /\ B >= 1 /\ lk[B].fin) =>
                 LET ks == Stages(res.K[k + 1], n) IN
                 \A q \in 1..Ns :
                   VNear(VLin(VScale(h, tab.A[q]), ks), lk[B].Y[q],
                         VAdd(VScale("4", lk[B].dY[q]),
                              VScale(rel, VAdd(VLinAbs(VScale(h, tab.A[q]), ks),
                                               TLCEval([c \in 1..n |-> RMaxAbs(Cat(lk[B].Y))]))))), RShow(t)) >>,
      next |->
       LET step == k - 1
           ext  == step - q0.ext > 15
           q1   == IF blur THEN q0 ELSE IF failL /\ ext /\ q0.lim > 0 THEN [q0 EXCEPT !.lim = @ + cfg.nmaxit, !.ext = step]
                   ELSE IF failH /\ ~a.acc /\ ext THEN [q0 EXCEPT !.lim = 0]   \* not known whether it was extended
                   ELSE q0
           mx   == failH /\ ~a.acc /\ (~stopnf \/ (over \/ q0.lim = 0))
           er   == failH /\ ~a.acc /\ stopnf
       IN IF blur THEN [q1 EXCEPT !.lim = 0, !.blur = TRUE]
          ELSE [q1 EXCEPT !.okl = @ + (IF a.acc \/ ended = "yes" THEN 1 ELSE 0),
                     !.okh = @ + (IF failL /\ ~a.acc THEN 0 ELSE 1),
                     !.maxl = @ + (IF failL /\ mx /\ ~er THEN 1 ELSE 0),
                     !.maxh = @ + (IF mx THEN 1 ELSE 0),
                     !.errl = @ + (IF failL /\ er /\ ~mx THEN 1 ELSE 0),
                     !.errh = @ + (IF er THEN 1 ELSE 0)]]

-----------------------------------------------------------------------------
(* The step size controller.  With e the norm of the error of a converged  *)
(* attempt of length h, q the lower order of the pair and it the number of *)
(* iterations, the next attempt is proposed with                           *)
(*   0.9 (maxit + 1)/(maxit + it) h min(8, e^(-x), e^(-x) r (e'/e)^x),     *)
(* x = 1/(q+1), where e' is the norm of the converged attempt before and r *)
(* the ratio of the last two proposals (1 at the start); after an          *)
(* iteration that failed the attempt is repeated with 0.7 h.               *)
(* g: what is known: the expected step lo..hi, the proposals p0 (lo..hi)   *)
(* and p1, the norm e0, whether the alternative estimate is due, whether   *)
(* the last attempt converged; on = FALSE once something cannot be told.   *)
G0 == LET d == S!FirstDt(scfg) IN
      [on |-> TRUE, lo |-> d, hi |-> d, p0l |-> d, p0h |-> d, p1l |-> d, p1h |-> d,
       el |-> "0.9", eh |-> "0.9", alt |-> TRUE, direct |-> TRUE]
Off(g) == [g EXCEPT !.on = FALSE]

AT == TLCEval([a \in 1..Ns |-> TLCEval([b \in 1..Ns |-> tab.A[b][a]])])
(* norm of the error of an attempt that is not recorded, with bounds *)
NormOf(t, y, r, alt) ==
  LET h   == r.h
      g   == RMul(cfg.gamma, h)
      rel == RelAcc("4000", t, h)
      J   == Jac(cfg.p, t, y)
      M   == EyeMinus(g, J)
      wb2 == VSub(cfg.b2, tab.b)
      u   == IF Sing THEN VScale(h, wb2) ELSE VSolve(AT, wb2)
      ub  == IF Sing THEN VScale(h, tab.b) ELSE VSolve(AT, tab.b)
      um  == IF Sing THEN VScale(h, VAdd(VAbs(cfg.b2), VAbs(tab.b)))
             ELSE VAdd(VAbs(VSolve(AT, cfg.b2)), VAbs(ub))
      X   == IF Sing THEN r.ks ELSE r.Y
      d   == VLin(u, X)
      yn  == VAdd(y, VLin(ub, X))
      f0  == F(cfg.p, t, y)
      e0  == VScale(h, VSolve(M, VAdd(d, VScale(g, f0))))
      f1  == F(cfg.p, t, VAdd(y, e0))
      e1  == VScale(h, VSolve(M, VAdd(d, VScale(g, f1))))
      Mi  == TLCEval([c \in 1..n |-> VAbs(VSolve(M, TLCEval([l \in 1..n |-> IF l = c THEN "1" ELSE "0"])))])
      inv(v) == VLinAbs(v, Mi)
      ym  == VAdd(VAbs(y), VAbs(e0))
      mag == VAdd(VLinAbs(um, X), VScale(g, FMag(cfg.p, RAdd(RAbs(t), h), ym)))
      dd  == VAdd(VScale(rel, mag), IF Sing THEN VScale("0", y) ELSE VLinAbs(um, r.dY))
      de0 == VScale(h, TLCEval(inv(VAdd(dd, VScale(RDiv(rel, h), TLCEval(MatVecAbs(M, e0)))))))
      de1 == VScale(h, TLCEval(inv(VAdd(VAdd(dd, VScale(RDiv(rel, h), TLCEval(MatVecAbs(M, e1)))),
                                VScale(g, VSub(FMag(cfg.p, RAdd(RAbs(t), h), VAdd(ym, de0)),
                                               FMag(cfg.p, RAdd(RAbs(t), h), ym)))))))
      sc  == Scales(cfg.atol, cfg.rtol, y, yn)
      e   == Norm(IF alt THEN e1 ELSE e0, sc)
      de  == RAdd(Norm(IF alt THEN de1 ELSE de0, sc), RMul("1e-9", e))
  IN [l |-> RMax(Floor, RSub(e, de)), h |-> RMax(Floor, RAdd(e, de)),
      ok |-> VFin(e1) /\ VFin(yn) /\ VFin(de1) /\ RLt(de, RMul("1e-3", e))]

StepAfter(g, q0, a, r) ==     \* g after the attempt a, analysed as r
  LET k  == w.k
      t  == res.T[k]
      y  == res.Y[k]
      h  == r.h
      e  == IF a.acc THEN [l |-> res.EN[k + 1], h |-> res.EN[k + 1], ok |-> TRUE]
            ELSE NormOf(t, y, r, g.alt)
      x  == RDiv("1", RInt(LowOrder(cfg.fam, cfg.method) + 1))
      fac == RMul("0.9", RDiv(RInt(q0.lim + 1), RInt(q0.lim + r.iters)))
      small(z) == RMin("8", z)
      s27l == RPow(RDiv("1", e.h), x)
      s27h == RPow(RDiv("1", e.l), x)
      s28l == RMul(s27l, RMul(RDiv(g.p0l, g.p1h), RPow(RDiv(g.el, e.h), x)))
      s28h == RMul(s27h, RMul(RDiv(g.p0h, g.p1l), RPow(RDiv(g.eh, e.l), x)))
      lo  == S!Capped(scfg, RMul(RMul(fac, h), RMin("8", RMin(s27l, s28l))))
      hi  == S!Capped(scfg, RMul(RMul(fac, h), RMin("8", RMin(s27h, s28h))))
  IN IF ~g.on \/ r.ended = "?" \/ q0.lim = 0 \/ (~a.acc /\ r.ended = "yes" /\ ~cfg.clean) THEN Off(g)
     ELSE IF ~a.acc /\ r.ended = "no"
     THEN [g EXCEPT !.lo = RMul("0.7", h), !.hi = RMul("0.7", h), !.direct = FALSE]
     ELSE IF ~e.ok \/ ~RLt("0", e.l) THEN Off(g)
     ELSE [g EXCEPT !.lo = lo, !.hi = hi, !.p0l = lo, !.p0h = hi,
                    !.p1l = g.p0l, !.p1h = g.p0h, !.el = e.l, !.eh = e.h,
                    !.alt = ~a.acc, !.direct = TRUE]

StepClauses(g, a, r) ==
  LET t   == res.T[w.k]
      rem == RSub(cfg.t1, t)
      fz  == RAdd(RDiv(Fuzz(t, r.h), tab.c[CMax]), RMul("1e-9", r.h))
  IN << C("step proposed by the controller",
          (g.on /\ Adaptive /\ ~r.blur) =>
             /\ RLe(RSub(RMin(g.lo, rem), fz), r.h)
             /\ RLe(r.h, RAdd(RMin(g.hi, rem), fz)),
          RShow(r.h) \o " not in " \o RShow(g.lo) \o " .. " \o RShow(g.hi)) >>
(* a run gives up only when the step it would have to make is lost in the  *)
(* rounding of the times                                                   *)
StopClauses(g) ==
  << C("gives up only when the step has vanished",
       (g.on /\ Adaptive /\ res.status = 4) =>
          RLe(RMin(g.lo, RSub(cfg.t1, res.T[w.k])), RAdd("1e-300", RMul("1e-15", RAbs(res.T[w.k])))),
       RShow(g.lo) \o " at " \o RShow(res.T[w.k])) >>
(* the proposal that was just observed, if it was not cut *)
Seen(g, r) ==
  IF g.direct /\ RLt(r.h, RMul("0.999", RSub(cfg.t1, res.T[w.k])))
  THEN [g EXCEPT !.p0l = RMax(@, RMul(r.h, "0.99999")), !.p0h = RMin(@, RMul(r.h, "1.00001"))] ELSE g

-----------------------------------------------------------------------------
Between(lo, x, hi) == lo <= x /\ x <= hi
CountersMatch(q) ==
  IF q.blur THEN <<>> ELSE
  << C("converged solves", Between(q.okl, res.nsucc, q.okh), ToString(<<q.okl, q.okh, q.maxl, q.maxh, q.errl, q.errh>>)),
     C("solves ended by the limit", Between(q.maxl, res.nmax, q.maxh), ToString(<<q.okl, q.okh, q.maxl, q.maxh, q.errl, q.errh>>)),
     C("solves ended by non-finite values", Between(q.errl, res.nerr, q.errh), ToString(<<q.okl, q.okh, q.maxl, q.maxh, q.errl, q.errh>>)),
     C("no other failures of the iteration", res.ninc = 0, ToString(res.ninc)) >>

St0 == [q |-> Q0, g |-> G0]
Attempt30 ==
  /\ ph = "att"
  /\ IF w.pos >= Len(w.cand)
     THEN /\ ph' = "fin" /\ i' = Npt
          /\ IF Check = "C30" THEN Judge(CountersMatch(IF i = 1 THEN Q0 ELSE s.q))
             ELSE Judge(StopClauses(IF i = 1 THEN G0 ELSE s.g))
          /\ UNCHANGED <<s, w>>
     ELSE IF FirstStart(w.pos + 1) = 0
     THEN /\ Judge(<< C("attempts start from the current state", FALSE, RShow(res.T[w.k])) >>)
          /\ ph' = "fin" /\ i' = Npt /\ UNCHANGED <<s, w>>
     ELSE LET x == IF i = 1 THEN St0 ELSE s
              a == IrkAttempt
              r == StageAttempt(x.q, a) IN
          /\ Judge(r.clauses)
          /\ IF Check = "C31" THEN Judge(StepClauses(x.g, a, r)) ELSE TRUE
          /\ i' = i + 1
          /\ s' = [q |-> r.next, g |-> IF Check = "C31" THEN StepAfter(Seen(x.g, r), x.q, a, r) ELSE x.g]
          /\ w' = [w EXCEPT !.pos = a.next, !.k = IF a.acc THEN @ + 1 ELSE @, !.rej = ~a.acc,
                            !.h = a.h, !.lo = a.lo, !.hi = a.hi]
          /\ UNCHANGED ph
  /\ UNCHANGED ti

StageNext == Broken \/ Start \/ Point \/ Attempt30 \/ Finish
StageSpec == Init /\ [][StageNext]_vars
=============================================================================
