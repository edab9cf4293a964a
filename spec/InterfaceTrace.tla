--------------------------- MODULE InterfaceTrace ---------------------------
(***************************************************************************)
(* What a caller sees at the surface of the library:                       *)
(*   "defaults"  values of options nobody set                     (C25)    *)
(*   "pair"      a call that leaves out arguments, and the same call with  *)
(*               the documented defaults given explicitly         (C25)    *)
(*   "print"     printed forms and the data they stand for        (C26)    *)
(*   "adapt"     adapters of functors: a state machine over the calls      *)
(*               made to the adapter and those that reach the user (C27)   *)
(*   "through"   an integration through the base class and directly (C27)  *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
VARIABLES ti, i
vars == <<ti, i>>
tr == Traces[ti]

Say(clause, detail) ==
  PrintT("VIOL|" \o tr.id \o "|" \o ToString(i) \o "|" \o clause \o "|" \o detail)
Require(name, holds, detail) == IF holds THEN TRUE ELSE Say(name, detail)
VIs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k] \/ RSame(a[k], b[k])
MIs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : VIs(a[k], b[k])

-----------------------------------------------------------------------------
(* C25 *)
Value(x, v) == RNear(x, v, RMul("1e-12", RAbs(v)))
Common(v) ==
  /\ Require("relative tolerance", Value(v.rtol, "1e-4"), RShow(v.rtol))
  /\ Require("absolute tolerance", Value(v.atol, "1e-3"), RShow(v.atol))
  /\ Require("no largest step", RLe(v.maxdt, "0"), RShow(v.maxdt))
  /\ Require("no step limit", v.maxsteps < 0, ToString(v.maxsteps))
  /\ Require("no Newton options", ~v.newton, "")
  /\ Require("no progress report", v.progress = 0, ToString(v.progress))
  /\ Require("no timing", ~v.timeint, "")
  /\ Require("adaptive", v.adaptive, "")
Newton(v) ==
  /\ Require("Newton tolerance", Value(v.tol, "1e-4"), RShow(v.tol))
  /\ Require("Newton increment tolerance", Value(v.dx, "1e-4"), RShow(v.dx))
  /\ Require("Newton iterations", v.maxit = 5000, ToString(v.maxit))
  /\ Require("no largest Newton step", RLe(v.maxstep, "0"), RShow(v.maxstep))
  /\ Require("Jacobian refresh", v.refresh = 10, ToString(v.refresh))
  /\ Require("no timing, preconditioning or limiting", ~(v.timeint \/ v.precond \/ v.limit), "")
Output(v) == Require("everything is stored, nothing is written, messages go to the standard output",
                     v.vec /\ ~v.file /\ v.oint = 1 /\ v.log /\ ~v.stream, ToString(v))
Fresh(v) ==
  Require("a solution starts empty",
     /\ v.status = 0 /\ v.T = <<>> /\ v.Y = <<>> /\ v.K = <<>> /\ v.E = <<>> /\ v.EN = <<>>
     /\ v.att = 0 /\ v.rerr = 0 /\ v.fev = 0 /\ RSame(v.acc, "0") /\ RSame(v.elapsed, "0")
     /\ "nsucc" \in DOMAIN v => (v.nrej = 0 /\ v.nsucc = 0 /\ v.ninc = 0 /\ v.nerr = 0 /\ v.nmax = 0 /\ v.jev = 0),
     ToString(v))
Default(of, v) ==
  CASE of \in {"erk", "erk2", "irk", "irk2"} -> Common(v)
    [] of = "newton" -> Newton(v)
    [] of = "output" -> Output(v)
    [] of = "status" -> Require("a status starts clean", v.conv = 0 /\ v.iters = 0 /\ RSame(v.res, "0"), ToString(v))
    [] OTHER -> Fresh(v)

(* two results that must be the same in every bit, their duration aside *)
Same(a, b) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A f \in DOMAIN a \ {"elapsed"} : Require("the same " \o f, a[f] = b[f], ToString(a[f]) \o " / " \o ToString(b[f]))
Pair(p) ==
  /\ Same(p.a, p.b)
  /\ Require("the same evaluations", p.nf = p.nf2 /\ p.nj = p.nj2, ToString(<<p.nf, p.nf2, p.nj, p.nj2>>))

-----------------------------------------------------------------------------
(* C26 *)
(* numbers are printed with six digits (three in the timings)              *)
Printed(x, v) == RNear(x, v, RAdd(RMul("5.1e-6", RAbs(v)), "1e-300"))
PrintedV(x, v) == Len(x) = Len(v) /\ \A k \in 1..Len(x) : Printed(x[k], v[k])
PCoeffs(p) ==
  LET s == Len(p.c)  has2 == Len(p.b2) > 0 IN
  /\ Require("the name is the first line", p.head = p.name, p.head)
  /\ Require("one line per stage, one or two of weights",
       Len(p.rows) = s + (IF has2 THEN 2 ELSE 1), ToString(Len(p.rows)))
  /\ Require("only these lines", p.other = 0, ToString(p.other))
  /\ \A k \in 1..(IF Len(p.rows) < s THEN Len(p.rows) ELSE s) :
       Require("node and row of the matrix", PrintedV(p.rows[k].l, <<p.c[k]>>) /\ PrintedV(p.rows[k].r, p.A[k]),
               ToString(p.rows[k]))
  /\ Len(p.rows) > s => Require("weights", p.rows[s + 1].l = <<>> /\ PrintedV(p.rows[s + 1].r, p.b), ToString(p.rows[s + 1]))
  /\ (has2 /\ Len(p.rows) > s + 1) =>
       Require("embedded weights", p.rows[s + 2].l = <<>> /\ PrintedV(p.rows[s + 2].r, p.b2), ToString(p.rows[s + 2]))
PTiming(p) ==
  LET sum == RSum(p.parts)
      unit == IF p.unit = "s" THEN "1000" ELSE "1"      \* milliseconds
      near(x, v) == RNear(x, v, RAdd(RMul("0.0051", RAbs(v)), "1e-300")) IN
  /\ Require("one heading with the name and the unit", p.heads = 1 /\ p.unit \in {"s", "ms"}, p.unit)
  /\ Require("the total and the parts", Len(p.rows) = 1 + Len(p.parts), ToString(Len(p.rows)))
  /\ Len(p.rows) = 1 + Len(p.parts) =>
     /\ Require("the total is the sum of the parts", near(RMul(unit, p.rows[1].v), sum), ToString(p.rows[1]))
     /\ \A k \in 1..Len(p.parts) :
          Require("every part in the unit of the heading", near(RMul(unit, p.rows[k + 1].v), p.parts[k]), ToString(p.rows[k + 1]))
     /\ RGt(sum, "0") =>
        /\ Require("the total is 100 %", near(p.rows[1].p, "100"), p.rows[1].p)
        /\ \A k \in 1..Len(p.parts) :
             Require("every part as a percentage of the total",
               near(p.rows[k + 1].p, RDiv(RMul("100", p.parts[k]), sum)), ToString(p.rows[k + 1]))
StatusNames == <<"SUCCESS", "INCREMENT_DIVERGE", "ITERATION_ERROR_TOO_LARGE", "MAXIT_EXCEEDED", "GENERIC_ERROR">>
PStatus(p) ==
  IF p.code \in 0..4
  THEN Require("status codes have their names", p.text = StatusNames[p.code + 1], p.text)
  ELSE Require("other codes have none of these names", \A k \in 1..5 : p.text # StatusNames[k], p.text)
PrintedForm(p) ==
  CASE p.kind = "coeffs" -> PCoeffs(p)
    [] p.kind = "list" -> Require("the printed list is the list", p.ok /\ p.back = p.list, ToString(p.back))
    [] p.kind = "timing" -> PTiming(p)
    [] OTHER -> PStatus(p)

-----------------------------------------------------------------------------
(* C27: o = [op, t, y, r, J, ev, r0, J0] (r0, J0: asked for directly       *)
(* afterwards); op says what was called:                                   *)
(*   c / n  compute with / without Jacobian, f / j  functor wrapper,       *)
(*   F / J  lambda wrapper                                                 *)
Untouched(v) == \A k \in 1..Len(v) : RSame(v[k], "-7.25")
Adapt(o) ==
  LET fs == SelectSeq(o.ev, LAMBDA e : e.k = "f")
      js == SelectSeq(o.ev, LAMBDA e : e.k = "j")
      wantF == o.op \in {"c", "n", "f", "F"}
      wantJ == o.op \in {"c", "j", "J"} IN
  /\ Require("evaluates the function only if asked for", wantF \/ fs = <<>>, ToString(Len(fs)))
  /\ Require("evaluates the Jacobian only if asked for", wantJ \/ js = <<>>, ToString(Len(js)))
  /\ \A k \in 1..Len(o.ev) :
       Require("at the given time and state", RSame(o.ev[k].t, o.t) /\ VIs(o.ev[k].y, o.y), o.op)
  /\ Require("returns the value of the function", IF wantF THEN VIs(o.r, o.r0) ELSE Untouched(o.r), o.op)
  /\ Require("returns the Jacobian",
       IF wantJ THEN MIs(o.J, o.J0) ELSE o.kept /\ \A k \in 1..Len(o.J) : Untouched(o.J[k]), o.op)

-----------------------------------------------------------------------------
Init == ti \in 1..Len(Traces) /\ i = 1
Steps == IF tr.end # "ok" THEN 1 ELSE IF tr.what = "adapt" THEN Len(tr.log) ELSE 1
Next ==
  /\ i <= Steps
  /\ IF tr.end # "ok" THEN Say("the calls return", tr.end)
     ELSE CASE tr.what = "defaults" -> Default(tr.of, tr.v)
            [] tr.what \in {"pair", "through"} -> Pair(tr.p)
            [] tr.what = "print" -> PrintedForm(tr.p)
            [] OTHER -> Adapt(tr.log[i])
  /\ i' = i + 1
  /\ UNCHANGED ti
Spec == Init /\ [][Next]_vars
=============================================================================
