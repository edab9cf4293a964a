------------------------------ MODULE RkTrace ------------------------------
(***************************************************************************)
(* Runs of the library's Runge-Kutta integrators, recorded by the harness, *)
(* replayed against the specification.  A trace consists of the            *)
(* configuration of the run (tr.cfg), what the library returned (tr.res:   *)
(* status, times T, states Y, stages K, error vectors E, norms EN,         *)
(* counters, the lines of the output stream) and, where asked for, the     *)
(* sequence of calls the library made to the user's functor (tr.res.ev).   *)
(*                                                                         *)
(* TLC takes every trace as an initial state and walks through it:         *)
(*   ph = "pt"   the recorded points, one per step: formulas of the method *)
(*   ph = "att"  the attempts, reconstructed from the calls: every attempt *)
(*               is an action of Stepper, instantiated with reals          *)
(*   ph = "fin"  the result as a whole                                     *)
(* Which clauses are evaluated depends on the property under check (CHECK  *)
(* in the environment).  A clause that fails is printed and the walk goes  *)
(* on.                                                                     *)
(***************************************************************************)
EXTENDS RkStep, Json, IOUtils, TLC, FiniteSets

Check  == IOEnv.CHECK
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))

(* the tableaus are computed once *)
ASSUME TLCSet(1, TLCEval([erk |-> TLCEval(ErkTab), irk |-> TLCEval(IrkTab)]))
Tabs == TLCGet(1)
RLess(a, b) == RLt(a, b)
S == INSTANCE Stepper WITH Plus <- RAdd, Minus <- RSub, Less <- RLess, Zero <- "0"

VARIABLES ti, ph, i, s, w
vars == <<ti, ph, i, s, w>>

tr  == Traces[ti]
cfg == Traces[ti].cfg
res == Traces[ti].res

Say(clause, detail) ==
  PrintT("VIOL|" \o tr.id \o "|" \o ToString(i) \o "|" \o clause \o "|" \o detail)
(* cl: a sequence of <<name, holds, detail>>; reports those that do not hold *)
Judge(cl) == \A k \in 1..Len(cl) : IF cl[k][2] THEN TRUE ELSE Say(cl[k][1], cl[k][3])

C(name, holds, detail) == <<name, holds, IF holds THEN "" ELSE detail>>

VShow(u) == LET U == [k \in 1..Len(u) |-> RShow(u[k])] IN ToString(U)
VSame(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : RSame(u[k], v[k])

n     == cfg.n
tab   == Tabs[cfg.fam][cfg.method]
Ns    == Len(tab.b)
Npt   == Len(res.T)
erk   == cfg.fam = "erk"
Completed == res.end = "ok"
Embedded == IF erk THEN Len(tab.b2) > 0 ELSE cfg.method # 200
Adaptive == cfg.adaptive /\ Embedded
scfg  == [t0 |-> cfg.t0, t1 |-> cfg.t1, dt |-> cfg.dt, maxdt |-> cfg.maxdt,
          maxsteps |-> cfg.maxsteps, adaptive |-> Adaptive, implicit |-> ~erk,
          oint |-> cfg.oint, store |-> cfg.store, stream |-> cfg.stream,
          progress |-> cfg.progress]

WellFormed ==
  /\ Npt >= 1
  /\ Len(res.Y) = Npt /\ Len(res.K) = Npt /\ Len(res.E) = Npt /\ Len(res.EN) = Npt
  /\ \A k \in 1..Npt : Len(res.Y[k]) = n /\ Len(res.E[k]) = n /\ Len(res.K[k]) = n * Ns

(* attempts are reconstructed when the calls were recorded *)
(* (those of an implicit method cannot be told apart while the state does *)
(* not change)                                                            *)
WantAttempts == /\ tr.hasev /\ Check \in {"C03", "C04", "C06", "C30", "C31"}
                /\ erk \/ \A k \in 2..Npt : res.Y[k] # res.Y[k - 1]

(* the step that ends in point k *)
Ulp(t, h) == RMul("4.5e-16", RAdd(RAbs(t), RAbs(h)))
H(k)   == RSub(res.T[k], res.T[k - 1])
Rel(k) == RelAcc(IF erk THEN "100" ELSE "4000", res.T[k], H(k))

-----------------------------------------------------------------------------
(* C01 *)
(* a component whose derivative is the constant c: every consistent method *)
(* integrates it exactly, up to rounding and the tolerances of the stages  *)
ClockOK(k) ==
  cfg.clock = 0 \/
  LET j == cfg.clock  r == cfg.p.c[j]
      per == RAdd(RMul("1e4", RMax(cfg.ntol, cfg.ndx)),
                  RMul("1e-12", RAdd(RAbs(cfg.y0[j]), RMul(RAbs(r), RAdd(RAbs(res.T[k]), RAbs(cfg.t0))))))
  IN  RNear(RSub(res.Y[k][j], cfg.y0[j]), RMul(r, RSub(res.T[k], cfg.t0)), RMul(RInt(k), per))
C01Point(k) ==
  IF k = 1
  THEN << C("starts at t0", RSame(res.T[1], cfg.t0), RShow(res.T[1])),
          C("starts at y0", VSame(res.Y[1], cfg.y0), VShow(res.Y[1])) >>
  ELSE << C("times increase", RLt(res.T[k - 1], res.T[k]), RShow(res.T[k])),
          C("not beyond t1", RLe(res.T[k], cfg.t1), RShow(res.T[k])),
          C("the state is that of the recorded time", ClockOK(k), RShow(res.Y[k][n])) >>
C01Final ==
  << C("ends exactly at t1", res.status = 0 => RSame(res.T[Npt], cfg.t1), RShow(res.T[Npt])) >>

(* C02 *)
C02Point(k) ==
  IF k = 1 THEN <<>> ELSE
  LET t == res.T[k - 1]  h == H(k)  y == res.Y[k - 1]  yn == res.Y[k]
      ks == Stages(res.K[k], n)  rel == Rel(k)
      (* the first stage may be the last stage of the step before, at a    *)
      (* state that differs from y by the rounding errors of that step      *)
      none == TLCEval([l \in 1..n |-> "0"])
      prev == IF tab.fsal /\ k > 2
              THEN VAdd(VAbs(res.Y[k - 2]),
                        VLinAbs(VScale(H(k - 1), tab.A[Ns]), Stages(res.K[k - 1], n)))
              ELSE none
      relp == IF tab.fsal /\ k > 2 THEN RMax(rel, Rel(k - 1)) ELSE rel
  IN  [j \in 1..Ns |->
        C("stage " \o ToString(j),
          cfg.clean => StageOK(cfg.p, tab, j, t, y, h, ks, IF j = 1 THEN relp ELSE rel, IF j = 1 THEN prev ELSE none),
          VShow(ks[j]))]
      \o << C("update", UpdateOK(tab, y, h, ks, yn, rel), VShow(yn)),
            C("error vector", Adaptive => VNear(res.E[k], ErrVec(tab, h, ks), ErrTol(tab, h, ks, rel)),
              VShow(res.E[k])) >>

(* the reported norm is that of the reported error vector *)
NormOK(k) ==
  LET e == Norm(res.E[k], Scales(cfg.atol, cfg.rtol, res.Y[k - 1], res.Y[k]))
      m == RMax(e, Floor)
  IN  RNear(res.EN[k], m, RMul("1e-12", m))

C03Point(k) ==
  IF k = 1 \/ ~Adaptive THEN <<>> ELSE
  << C("norm", NormOK(k), RShow(res.EN[k])),
     C("accepted below 1", RLt(res.EN[k], "1"), RShow(res.EN[k])) >>

(* C05: in terms of Y_i = h sum_j a_ij k_j, the residual of the stage      *)
(* equations is R = Y - h A F(y + Y) = h A (k - F(y + h A k)); Newton      *)
(* stops when |R| < tol, or when the correction is below dx: then R is the *)
(* error of the linearisation times that correction.                       *)
C05Point(k) ==
  IF k = 1 \/ ~cfg.clean THEN <<>> ELSE
  LET t == res.T[k - 1]  h == H(k)  y == res.Y[k - 1]  yn == res.Y[k]
      ks == Stages(res.K[k], n)  rel == Rel(k)
      fs == TLCEval([j \in 1..Ns |->
              F(cfg.p, RAdd(t, RMul(tab.c[j], h)), StageArg(tab, j, y, h, ks))])
      ds == TLCEval([j \in 1..Ns |-> VSub(ks[j], fs[j])])
      mg == TLCEval([j \in 1..Ns |->
              VAdd(VAbs(ks[j]), FMag(cfg.p, RAdd(RAbs(t), h), StageMag(tab, j, y, h, ks)))])
      Rs(j) == VLin(VScale(h, tab.A[j]), ds)
      Ms(j) == VLinAbs(VScale(h, tab.A[j]), mg)
      ym == TLCEval([l \in 1..n |-> RMaxAbs(TLCEval([j \in 1..Ns |-> StageMag(tab, j, y, h, ks)[l]]))])
      jm == RMaxAbs(JacMag(cfg.p, RAdd(RAbs(t), h), ym))
      an == RMaxAbs(TLCEval([j \in 1..Ns |-> RSum(VAbs(tab.A[j]))]))
      kap == RMul("2", RAdd("1", RMul(RMul(h, an), jm)))
      (* a zero row of A: the stage is f itself *)
      zero(j) == \A q \in 1..Ns : RSame(tab.A[j][q], "0")
      (* with such a row the stages are f(y + Y), not inv(A) Y/h           *)
      expl == \E j \in 1..Ns : zero(j)
      nt == RMul("1.01", RMul(IF expl THEN kap ELSE "1", RMax(cfg.ntol, RMul(kap, cfg.ndx))))
  IN  [j \in 1..Ns |->
        C("stage equation " \o ToString(j),
          IF zero(j)
          THEN VNear(ks[j], fs[j], VAdd(VScale(rel, mg[j]), TLCEval([l \in 1..n |-> "1e-290"])))
          ELSE /\ VNear(Rs(j), TLCEval([l \in 1..n |-> "0"]),
                        VAdd(VScale(rel, Ms(j)), TLCEval([l \in 1..n |-> nt]))),
          VShow(ks[j]))]
      \o << C("update", UpdateOK(tab, y, h, ks, yn, rel), VShow(yn)) >>

(* C04: recorded error vectors *)
EyeMinus(g, J) ==
  TLCEval([a \in 1..n |-> TLCEval([b \in 1..n |->
     RSub(IF a = b THEN "1" ELSE "0", RMul(g, J[a][b]))])])
ErrSolves(E, h, M, rhs, mag, rel) ==
  LET x == VScale(RDiv("1", h), E) IN
  VNear(MatVec(M, x), rhs,
        VScale(rel, VAdd(mag, MatVecAbs(M, VAbs(x)))))
(* alt: the estimate is evaluated once more, at y plus its first value     *)
(* (Hairer and Wanner 8.20): until the first step is accepted, and after   *)
(* an attempt rejected by the error test                                   *)
C04Vector(k, alts) ==
  LET t == res.T[k - 1]  h == H(k)  y == res.Y[k - 1]
      ks == Stages(res.K[k], n)  rel == Rel(k)
      g  == RMul(cfg.gamma, h)
      J  == Jac(cfg.p, t, y)
      M  == EyeMinus(g, J)
      d  == VLin(VScale(h, VSub(cfg.b2, tab.b)), ks)
      f0 == F(cfg.p, t, y)
      r0 == VAdd(d, VScale(g, f0))
      e0 == VScale(h, VSolve(M, r0))
      f1 == F(cfg.p, t, VAdd(y, e0))
      r1 == VAdd(d, VScale(g, f1))
      ym  == VAdd(VAbs(y), VAbs(e0))
      mag == VAdd(VAdd(VLinAbs(VScale(h, cfg.b2), ks), VLinAbs(VScale(h, tab.b), ks)),
                  VScale(RAbs(g), FMag(cfg.p, RAdd(RAbs(t), h), ym)))
      (* the rounding errors of e0, and what they may do to f1             *)
      Mi  == TLCEval([c \in 1..n |-> VAbs(VSolve(M, TLCEval([l \in 1..n |-> IF l = c THEN "1" ELSE "0"])))])
      b0  == VScale(rel, VAdd(VScale(h, mag), MatVecAbs(M, VAbs(e0))))
      de0 == TLCEval([l \in 1..n |-> RSum(TLCEval([c \in 1..n |-> RMul(Mi[c][l], b0[c])]))])
      df1 == VScale(RDiv(RAbs(g), rel),
                    VSub(FMag(cfg.p, RAdd(RAbs(t), h), VAdd(ym, de0)), FMag(cfg.p, RAdd(RAbs(t), h), ym)))
  IN \/ FALSE \in alts /\ ErrSolves(res.E[k], h, M, r0, mag, rel)
     \/ TRUE  \in alts /\ (\/ ErrSolves(res.E[k], h, M, r1, mag, rel)
                          \/ ErrSolves(res.E[k], h, M, r1, VAdd(mag, df1), rel))
C04Point(k) ==
  IF k = 1 \/ ~Adaptive THEN <<>> ELSE
  << C("error vector", (cfg.clean /\ ~WantAttempts) => C04Vector(k, BOOLEAN), VShow(res.E[k])),
     C("norm", NormOK(k), RShow(res.EN[k])),
     C("accepted at most 1", RLe(res.EN[k], "1"), RShow(res.EN[k])) >>

(* C07 *)
C07Point(k) ==
  IF k = 1 \/ ~tr.full \/ ~RLt("0", cfg.maxdt) THEN <<>> ELSE
  << C("step within max_dt", RLe(H(k), RAdd(cfg.maxdt, Ulp(res.T[k], H(k)))), RShow(H(k))) >>

(* C08 *)
C08Point(k) == << C("finite state", VFin(res.Y[k]), VShow(res.Y[k])) >>

-----------------------------------------------------------------------------
(* Attempts.  w is the window on the calls: w.pos calls consumed, w.k the  *)
(* recorded point the attempt starts from; s is the state of Stepper; lo   *)
(* and hi bound the step size the specification expects next.              *)
Ev     == res.ev
Calls  == Len(Ev)
Fsal   == erk /\ tab.fsal
NCall  == IF Fsal THEN Ns - 1 ELSE Ns
CMax   == CHOOSE j \in 1..Ns : /\ \A q \in 1..Ns : RLe(tab.c[q], tab.c[j])
                               /\ \A q \in (j + 1)..Ns : RLt(tab.c[q], tab.c[j])
Fuzz(t, h) == RMul("4", Ulp(t, h))

(* is the batch of Ns calls at position j the start of an attempt from t, y? *)
(* (the stages may be evaluated in any order)                                *)
BatchT(j) == TLCEval([q \in 1..Ns |-> Ev[j + q - 1].t])
Latest(ts) == ts[CHOOSE q \in 1..Len(ts) : \A r \in 1..Len(ts) : RLe(ts[r], ts[q])]
BatchH(j, t) == RDiv(RSub(Latest(BatchT(j)), t), tab.c[CMax])
StartAt(j, t, y) ==
  /\ j + Ns - 1 <= Calls
  /\ \A q \in 0..(Ns - 1) : Ev[j + q].y = y
  /\ LET h == BatchH(j, t)  ts == BatchT(j)
         is(q, r) == RNear(ts[r], RAdd(t, RMul(tab.c[q], h)), Fuzz(t, h)) IN
     /\ RLt("0", h)
     /\ \A q \in 1..Ns : is(q, q) \/ \E r \in 1..Ns : is(q, r)
     /\ \A r \in 1..Ns : is(r, r) \/ \E q \in 1..Ns : is(q, r)

SameLength(h1, h2) == RSame(h1, h2)
(* the length is known up to the rounding of the times *)
Smaller(h1, h2, t) == RLt(h1, h2) \/ RLt(h1, RMul("1000", Ulp(t, h1)))
RECURSIVE Cat(_)
Cat(vs) == IF vs = <<>> THEN <<>> ELSE Head(vs) \o Cat(Tail(vs))

(* ---- explicit methods ------------------------------------------------- *)
ErkAttempt ==
  LET k  == w.k
      t  == res.T[k]
      y  == res.Y[k]
      cs == SubSeq(Ev, w.pos + 1, w.pos + NCall)
      ks == (IF Fsal THEN <<w.k1>> ELSE <<>>) \o TLCEval([q \in 1..NCall |-> cs[q].r])
      cm == cs[IF Fsal THEN CMax - 1 ELSE CMax]
      seen == RLt("0", tab.c[CMax])   \* not for the explicit Euler method
      h  == IF seen THEN RDiv(RSub(cm.t, t), tab.c[CMax])
            ELSE IF k < Npt THEN RSub(res.T[k + 1], t) ELSE w.lo
      fz == IF seen THEN RDiv(Fuzz(t, h), tab.c[CMax]) ELSE Fuzz(t, h)
      rel == RelAcc("100", RAdd(t, h), h)
      flat == Cat(ks)
      acc == /\ k < Npt
             /\ res.K[k + 1] = flat
             /\ RNear(res.T[k + 1], RAdd(t, h), fz)
      fin == VFin(flat)
      yn  == VAdd(y, VLin(VScale(h, tab.b), ks))
      sc  == Scales(cfg.atol, cfg.rtol, y, yn)
      e   == Norm(ErrVec(tab, h, ks), sc)
      de  == RAdd(Norm(ErrTol(tab, h, ks, rel), sc), RMul("1e-12", e))
      q   == LowOrder(cfg.fam, cfg.method)
      elo == RMax("0", RSub(e, de))
      ehi == RAdd(e, de)
      lo  == IF fin THEN RMul(RMul(h, Factor(ehi, q, "4")), "0.999999999999") ELSE "0"
      hi  == IF fin THEN RMul(RMul(h, Factor(elo, q, "4")), "1.000000000001") ELSE h
      lo1 == IF Adaptive THEN S!Capped(scfg, lo) ELSE w.lo
      hi1 == IF Adaptive THEN S!Capped(scfg, hi) ELSE w.hi
      rem == RSub(cfg.t1, t)
      same == IF Fsal
              THEN LET k1 == VScale(RMul(h, tab.A[2][1]), w.k1) IN
                   VNear(cs[1].y, VAdd(y, k1), VScale(rel, VAdd(VAbs(y), VAbs(k1))))
              ELSE cs[1].y = y /\ RSame(cs[1].t, t)
  IN [acc |-> acc, kind |-> IF acc THEN "acc" ELSE "err", h |-> h, ks |-> ks,
      lo |-> IF acc THEN lo1 ELSE RMin(lo1, h), hi |-> IF acc THEN hi1 ELSE RMin(hi1, h),
      next |-> w.pos + NCall,
      c03 |-> IF Check \in {"C06", "C30", "C31"} THEN <<>> ELSE
       << C("proposed step",
              /\ RLe(RSub(RMin(w.lo, rem), fz), h)
              /\ RLe(h, RAdd(RMin(w.hi, rem), fz)),
            RShow(h) \o " not in " \o RShow(w.lo) \o " .. " \o RShow(w.hi)),
          C("smaller after rejection", w.rej => Smaller(h, w.h, t), RShow(h)),
          C("starts from the unchanged state", same, VShow(cs[1].y)),
          C("error test", ~Adaptive \/
               IF ~fin THEN ~acc
               ELSE IF RLt(ehi, "1") THEN acc
               ELSE IF RLe("1", elo) THEN ~acc ELSE TRUE,
            (IF acc THEN "accepted with norm " ELSE "rejected with norm ") \o RShow(e)) >>]

(* ---- implicit methods ------------------------------------------------- *)
(* Only the first evaluations of an attempt are looked for, Ns consecutive *)
(* calls with the state the attempt starts from; what else is evaluated,   *)
(* and when, is left to the implementation.                                *)
RECURSIVE FirstStart(_), NextStart(_, _)
(* w.cand: the positions of Ns consecutive calls with the same state;      *)
(* the arguments below are indices in it                                   *)
Candidates ==
  SelectSeq([j \in 1..(IF Calls < Ns THEN 0 ELSE Calls - Ns + 1) |-> j],
            LAMBDA j : \A q \in 1..(Ns - 1) : Ev[j + q].y = Ev[j].y)
(* a call at the same state just before or after the first stages (of a    *)
(* stage at the start of the step, for the error estimate) may make others *)
(* look like them: prefer the start where the Jacobian is evaluated just   *)
(* before or after the stages and not between them, then that which has    *)
(* the stages in the order of the tableau                                  *)
Ordered(j, t, y) ==
  LET h == BatchH(j, t) IN
  \A q \in 1..Ns : RNear(Ev[j + q - 1].t, RAdd(t, RMul(tab.c[q], h)), Fuzz(t, h))
JacFits(j) ==
  /\ \E x \in 1..Len(res.jv) : res.jv[x].at \in {j - 1, j + Ns - 1}
  /\ \A x \in 1..Len(res.jv) : ~(res.jv[x].at \in j..(j + Ns - 2))
RECURSIVE ChainEnd(_, _, _)
ChainEnd(x, t, y) ==
  IF /\ x < Len(w.cand)
     /\ w.cand[x + 1] = w.cand[x] + 1
     /\ StartAt(w.cand[x + 1], t, y)
  THEN ChainEnd(x + 1, t, y) ELSE x
Align(x, t, y) ==
  LET e == ChainEnd(x, t, y) IN
  IF e = x THEN x ELSE
  LET first(q) == CHOOSE z \in q : \A u \in q : z <= u
      js == {z \in x..e : JacFits(w.cand[z])}
      os == {z \in x..e : Ordered(w.cand[z], t, y)}
  IN IF js \cap os # {} THEN first(js \cap os)
     ELSE IF js # {} THEN first(js)
     ELSE IF os # {} THEN first(os) ELSE x
FirstStart(x) ==     \* start of the attempt from the current point
  IF x > Len(w.cand) THEN 0
  ELSE IF StartAt(w.cand[x], res.T[w.k], res.Y[w.k]) THEN Align(x, res.T[w.k], res.Y[w.k])
  ELSE FirstStart(x + 1)
NextStart(x, h) ==   \* start of the attempt after one of length h
  IF x > Len(w.cand) THEN [at |-> x, acc |-> w.k < Npt]
  ELSE IF w.k < Npt /\ StartAt(w.cand[x], res.T[w.k + 1], res.Y[w.k + 1])
       THEN [at |-> Align(x, res.T[w.k + 1], res.Y[w.k + 1]), acc |-> TRUE]
  ELSE IF StartAt(w.cand[x], res.T[w.k], res.Y[w.k]) /\ ~SameLength(BatchH(w.cand[x], res.T[w.k]), h)
       THEN [at |-> Align(x, res.T[w.k], res.Y[w.k]), acc |-> FALSE]
  ELSE NextStart(x + 1, h)

After(st) ==         \* the first stages take Ns calls
  LET q == {x \in (st + 1)..(st + Ns) : x > Len(w.cand) \/ w.cand[x] >= w.cand[st] + Ns}
  IN CHOOSE x \in q : \A z \in q : x <= z

(* Newton's iteration is exact for linear problems: every rejection is     *)
(* due to the error estimate.  Otherwise its cause is not visible.         *)
Exact == cfg.clean /\ cfg.p.Q = <<>>

IrkAttempt ==
  LET k == w.k
      t == res.T[k]
      y == res.Y[k]
      st == FirstStart(w.pos + 1)
      ok == st > 0
      h == IF ok THEN BatchH(w.cand[st], t) ELSE "1"
      nx == IF ok THEN NextStart(After(st), h) ELSE [at |-> Len(w.cand) + 1, acc |-> FALSE]
      fz == RDiv(Fuzz(t, h), tab.c[CMax])
      q  == LowOrder(cfg.fam, cfg.method)
      hi == IF ~Adaptive THEN w.hi
            ELSE IF nx.acc
            THEN RMul(RMul(h, Factor(res.EN[k + 1], q, "8")), "1.000000000001")
            ELSE IF Exact THEN RMul("0.900000000001", h) ELSE h
      rem == RSub(cfg.t1, t)
  IN [acc |-> nx.acc, h |-> h, next |-> nx.at - 1, lo |-> "0", ks |-> <<>>,
      kind |-> IF nx.acc THEN "acc" ELSE IF Exact THEN "err" ELSE "newton",
      hi |-> S!Capped(scfg, hi),
      c03 |-> IF Check \in {"C06", "C30", "C31"} THEN <<>> ELSE
       << C("starts from the unchanged state", ok, RShow(t)),
          C("step size bound", RLe(h, RAdd(RMin(w.hi, rem), fz)),
             RShow(h) \o " > " \o RShow(w.hi)),
          C("constant step", Adaptive \/ RLe(RSub(RMin(w.hi, rem), fz), h), RShow(h)),
          C("smaller after rejection", w.rej => Smaller(h, w.h, t), RShow(h)),
          C("error vector", (Adaptive /\ cfg.clean /\ nx.acc) => C04Vector(k + 1, w.alts),
             RShow(t)) >>]

-----------------------------------------------------------------------------
(* attempts of an implicit method, whose lengths differ by no more than    *)
(* the rounding of the times, may look like one (w.blur)                   *)
Counted(a, b) == IF w.blur THEN a >= b ELSE a = b
StepperMatches ==
  << C("attempts", Counted(res.att, s.att), ToString(s.att)),
     C("error rejections", (erk \/ Exact) => Counted(res.rerr, s.rerr), ToString(s.rerr)),
     C("newton rejections", (~erk /\ Exact) => Counted(res.nrej, s.rnew), ToString(s.rnew)),
     C("rejections", ~erk => Counted(res.rerr + res.nrej, s.rerr + s.rnew), ToString(s.rerr + s.rnew)),
     C("converged solves", (~erk /\ Exact) => Counted(res.nsucc, s.nsucc), ToString(s.nsucc)),
     C("accepted steps", Npt - 1 = s.step, ToString(s.step)),
     C("status", res.status = IF s.pc = "done" THEN s.status ELSE S!Stop(scfg, s).status, ToString(res.status)) >>

(* C06: identities of the counters *)
C06Final ==
  LET acc == IF tr.full THEN Npt - 1 ELSE res.att - res.rerr - (IF erk THEN 0 ELSE res.nrej) IN
  << C("function evaluations", res.fev = res.nf, ToString(res.fev)),
     C("jacobian evaluations", IF erk THEN res.nj = 0 ELSE res.jev = res.nj, ToString(res.nj)),
     C("attempts = steps + rejections",
        acc >= 0 /\ res.att = acc + res.rerr + (IF erk THEN 0 ELSE res.nrej), ToString(res.att)),
     C("converged solves", ~erk => res.nsucc = acc + res.rerr, ToString(acc)),
     C("newton rejections by cause", ~erk => res.nrej = res.ninc + res.nerr + res.nmax, ToString(acc)),
     C("accepted fraction",
        IF res.att = 0 THEN TRUE
        ELSE RNear(res.acc, RDiv(RInt(acc), RInt(res.att)), "1e-15"), RShow(res.acc)),
     C("evaluations per attempt",
        erk => res.fev = res.att * NCall + (IF Fsal THEN 1 ELSE 0), ToString(res.fev)) >>

(* C07: a run with a step limit against the same run without *)
Prefix(m) == \A k \in 1..m : res.T[k] = tr.ref.T[k] /\ res.Y[k] = tr.ref.Y[k]
(* when not every step is recorded, the counters tell how many were taken  *)
C07Sparse ==
  LET lim == cfg.maxsteps
      acc == res.att - res.rerr - (IF erk THEN 0 ELSE res.nrej)
      R   == tr.ref IN
  << C("at most max_steps steps", lim >= 0 => acc <= lim, ToString(acc)),
     C("maximum-steps error only when the limit stops the run",
        res.status = 128 => (lim >= 0 /\ acc = lim), ToString(acc)) >>
  \o
  IF ~tr.hasref \/ R.end # "ok" \/ R.status # 0 THEN <<>> ELSE
  << C("limit does not change the steps taken", acc = (IF lim >= 0 /\ lim < R.M THEN lim ELSE R.M),
       ToString(acc) \o " of " \o ToString(R.M)),
     C("status with limit", res.status = IF lim >= 0 /\ lim < R.M THEN 128 ELSE 0, ToString(res.status)) >>
C07Final ==
  IF ~tr.full THEN C07Sparse ELSE
  LET lim == cfg.maxsteps IN
  << C("at most max_steps steps", lim >= 0 => Npt - 1 <= lim, ToString(Npt - 1)),
     C("maximum-steps error only when the limit stops the run",
        res.status = 128 => (lim >= 0 /\ Npt - 1 = lim /\ RLt(res.T[Npt], cfg.t1)),
        ToString(Npt - 1)),
     C("limit reached before the end is reported",
        (lim >= 0 /\ Npt - 1 = lim /\ RLt(res.T[Npt], cfg.t1)) => res.status = 128, ToString(res.status)) >>
  \o
  IF ~tr.hasref \/ tr.ref.end # "ok" \/ tr.ref.status # 0 THEN <<>> ELSE
  LET M == tr.ref.M IN
  << C("limit does not change the steps taken",
        /\ Npt = (IF lim >= 0 /\ lim < M THEN lim ELSE M) + 1
        /\ Prefix(Npt), ToString(Npt - 1) \o " of " \o ToString(M)),
     C("status with limit",
        res.status = IF lim >= 0 /\ lim < M THEN 128 ELSE 0, ToString(res.status)) >>

(* C08 *)
C08Final ==
  << C("success only at the end of the interval",
        res.status = 0 => RSame(res.T[Npt], cfg.t1), RShow(res.T[Npt])),
     C("a failing problem is not reported as success",
        cfg.expect = "fail" => res.status # 0, ToString(res.status)),
     C("a temporary failure is overcome",
        cfg.expect = "ok" => res.status = 0, ToString(res.status)) >>

(* behaviours generated by StepperGen and forced upon the library *)
GenOK ==
  IF ~tr.hasgen THEN <<>> ELSE
  << C("generated behaviour: status", res.status = tr.gen.status, ToString(res.status)),
     C("generated behaviour: points", Npt = Len(tr.gen.vec), ToString(Npt)),
     C("generated behaviour: lines", Len(res.file) = Len(tr.gen.file), ToString(Len(res.file))) >>

(* C09: what must be recorded is what Stepper records in a run with as     *)
(* many accepted steps as the reference run, which records everything.     *)
RECURSIVE Drive(_, _)
Drive(st, m) == IF m = 0 THEN st ELSE Drive(S!Accept(scfg, st, "0", "0"), m - 1)
C09Final ==
  LET st == Drive(S!Init0(scfg), Len(tr.ref.T) - 1)
      R  == tr.ref
      V  == Len(st.vec)
      L  == Len(st.file)
  IN << C("recorded points", Npt = V, ToString(Npt)),
        C("recorded values",
           Npt = V => \A k \in 1..V :
             /\ res.T[k] = R.T[st.vec[k] + 1] /\ res.Y[k] = R.Y[st.vec[k] + 1]
             /\ k > 1 => /\ res.K[k] = R.K[st.vec[k] + 1]
                         /\ res.E[k] = R.E[st.vec[k] + 1]
                         /\ res.EN[k] = R.EN[st.vec[k] + 1], ToString(V)),
        C("lines written", Len(res.file) = L, ToString(Len(res.file))),
        C("line contents",
           Len(res.file) = L => \A k \in 1..L :
             VSame(res.file[k], <<R.T[st.file[k] + 1]>> \o R.Y[st.file[k] + 1]), ToString(L)),
        C("same run", /\ res.status = R.status /\ res.att = R.att /\ res.rerr = R.rerr
                      /\ res.fev = R.fev, ToString(res.att)) >>

(* C24: the progress report, lines [k, t, h, e, it]; numbers may have been *)
(* printed with few digits                                                 *)
Close(a, b) == RSame(a, b) \/ RNear(a, b, RMul("2e-6", RMax(RAbs(a), RAbs(b))))
Lines    == res.log
LastOf(q) == q = Len(Lines) \/ Lines[q + 1].k # Lines[q].k
C24Line(q) ==
  LET l == Lines[q]  k == l.k + 1 IN
  << C("reported only when due", S!Reported(scfg, l.k), ToString(l.k)),
     C("in order", q > 1 => l.k >= Lines[q - 1].k, ToString(l.k)),
     C("iterations only of implicit methods", erk = (l.it < 0), ToString(l.it)) >>
  \o
  IF ~tr.full THEN <<>> ELSE
  << C("of a step that was attempted", k <= Npt, ToString(l.k)),
     C("time the attempt starts from", k <= Npt => Close(l.t, res.T[k]), RShow(l.t)),
     C("last line of a step: accepted length",
        (LastOf(q) /\ k < Npt) =>
          RNear(l.h, H(k + 1), RAdd(RMul("2e-6", H(k + 1)), Ulp(res.T[k + 1], H(k + 1)))), RShow(l.h)),
     C("last line of a step: its error", (LastOf(q) /\ k < Npt) => Close(l.e, res.EN[k + 1]), RShow(l.e)),
     C("other lines: rejected attempts",
        (k < Npt /\ ~LastOf(q)) =>
           /\ Adaptive
           /\ RLt(Lines[q + 1].h, l.h)
           /\ cfg.clean => ~RLt(l.e, "0.99999"), RShow(l.h)) >>
C24Final ==
  LET R == tr.ref
      due(k) == S!Reported(scfg, k)
      acc == Npt - 1
      Has(k) == \E q \in 1..Len(Lines) : Lines[q].k = k IN
  << C("one header line, if asked for", res.heads = IF cfg.progress > 0 THEN 1 ELSE 0, ToString(res.heads)),
     C("no report unless asked for", cfg.progress <= 0 => Lines = <<>>, ToString(Len(Lines))),
     C("every due step is reported",
        tr.full => \A k \in 0..(acc - 1) : due(k) => Has(k), ToString(Len(Lines))),
     C("one line per attempt",
        cfg.progress = 1 =>
          Len(Lines) = (res.att - (IF erk THEN 0 ELSE res.nrej) - (IF Adaptive THEN 0 ELSE res.rerr)),
        ToString(Len(Lines))),
     C("reference run", R.end = "ok", R.end) >>
  \o
  IF R.end # "ok" THEN <<>> ELSE
  << C("the same run", /\ res.status = R.status /\ res.att = R.att /\ res.rerr = R.rerr /\ res.fev = R.fev
                       /\ tr.full => (res.T = R.T /\ res.Y = R.Y), ToString(res.att)),
     C("selected from the full report",
        cfg.progress > 1 => Lines = SelectSeq(R.log, LAMBDA l : due(l.k)), ToString(Len(Lines))) >>
C24All == Cat([q \in 1..Len(Lines) |-> C24Line(q)]) \o C24Final

(* C30: even where the state does not change and StageTrace cannot tell    *)
(* the attempts apart                                                      *)
C30Final ==
  << C("a correction is made before the iteration ends",
       (cfg.clean /\ cfg.nmaxit > 1 /\ res.nerr = 0) => res.nf >= 2 * Ns * res.att, ToString(<<res.nf, res.att>>)) >>

-----------------------------------------------------------------------------
PointClauses(k) ==
  CASE Check = "C01" -> C01Point(k)
    [] Check = "C02" -> C02Point(k)
    [] Check = "C03" -> C03Point(k)
    [] Check = "C04" -> C04Point(k)
    [] Check = "C05" -> C05Point(k)
    [] Check = "C07" -> C07Point(k)
    [] Check = "C08" -> C08Point(k)
    [] OTHER -> <<>>
FinalClauses ==
  CASE Check = "C01" -> C01Final
    [] Check = "C06" -> C06Final
    [] Check = "C07" -> C07Final \o GenOK
    [] Check = "C08" -> C08Final \o GenOK
    [] Check = "C09" -> C09Final \o GenOK
    [] Check = "C24" -> C24All
    [] Check = "C30" -> C30Final
    [] OTHER -> <<>>
Init ==
  /\ ti \in 1..Len(Traces)
  /\ i = 0
  /\ s = <<>>
  /\ w = <<>>
  /\ ph = IF Traces[ti].res.end = "ok" THEN "start" ELSE "broken"

Broken ==    \* the run did not return
  /\ ph = "broken"
  /\ Judge(<< C("the integration returns", FALSE, res.end) >>)
  /\ ph' = "done"
  /\ UNCHANGED <<ti, i, s, w>>

Start ==
  /\ ph = "start"
  /\ IF WellFormed THEN TRUE ELSE Judge(<< C("records are aligned", FALSE, ToString(Npt)) >>)
  /\ ph' = IF WellFormed THEN "pt" ELSE "done"
  /\ i' = 1
  /\ UNCHANGED <<ti, s, w>>

Point ==
  /\ ph = "pt"
  /\ Judge(PointClauses(i))
  /\ IF i < Npt /\ Check \notin {"C06", "C09", "C24"}
     THEN i' = i + 1 /\ UNCHANGED <<ph, s, w>>
     ELSE IF WantAttempts
     THEN /\ ph' = "att" /\ i' = 1
          /\ s' = S!Init0(scfg)
          /\ LET d == S!FirstDt(scfg) IN
             w' = [pos |-> IF Fsal THEN 1 ELSE 0, k |-> 1, rej |-> FALSE, h |-> "0", blur |-> FALSE,
                   lo |-> d, hi |-> d, k1 |-> IF Fsal /\ Calls >= 1 THEN Ev[1].r ELSE <<>>, alts |-> {TRUE},
                   cand |-> IF erk THEN <<>> ELSE TLCEval(Candidates)]
     ELSE ph' = "fin" /\ i' = Npt /\ UNCHANGED <<s, w>>
  /\ UNCHANGED ti

Attempt ==
  /\ ph = "att"
  /\ IF w.pos >= (IF erk THEN Calls ELSE Len(w.cand))
     THEN /\ ph' = "fin"
          /\ i' = Npt
          /\ Judge(StepperMatches \o
               << C("gives up only when the step has vanished",
                    (Check = "C03" /\ Adaptive /\ res.status = 4) =>
                       RLe(RMin(w.lo, RSub(cfg.t1, res.T[w.k])), RAdd("1e-300", RMul("1e-15", RAbs(res.T[w.k])))),
                    RShow(w.lo) \o " at " \o RShow(res.T[w.k])) >>)
          /\ UNCHANGED <<s, w>>
     ELSE IF erk /\ w.pos + NCall > Calls
     THEN /\ Judge(<< C("whole attempts", FALSE, ToString(Calls)) >>)
          /\ ph' = "fin" /\ i' = Npt /\ UNCHANGED <<s, w>>
     ELSE LET a == IF erk THEN ErkAttempt ELSE IrkAttempt IN
          /\ (Check \in {"C03", "C04"} => Judge(a.c03))
          /\ i' = i + 1
          /\ s' = IF a.kind = "acc" THEN S!Accept(scfg, s, res.T[w.k + 1], a.hi)
                  ELSE IF a.kind = "err" THEN S!RejectErr(scfg, s, a.hi)
                  ELSE S!RejectNewton(scfg, s, a.hi)
          /\ w' = [w EXCEPT !.pos = a.next, !.k = IF a.acc THEN @ + 1 ELSE @,
                            !.rej = ~a.acc, !.h = a.h,
                            !.blur = @ \/ (~erk /\ RLt(a.h, RMul("1000", Ulp(res.T[w.k], a.h)))), !.lo = a.lo, !.hi = a.hi,
                            !.alts = IF a.acc THEN {FALSE}
                                      ELSE IF a.kind = "err" \/ res.nrej = 0 THEN {TRUE}
                                      ELSE IF res.rerr = 0 THEN @ ELSE @ \cup {TRUE},
                            !.k1 = IF Fsal /\ a.acc THEN a.ks[Ns] ELSE @]
          /\ UNCHANGED ph
  /\ UNCHANGED ti

Finish ==
  /\ ph = "fin"
  /\ Judge(FinalClauses)
  /\ ph' = "done"
  /\ UNCHANGED <<ti, i, s, w>>

Next == Broken \/ Start \/ Point \/ Attempt \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
