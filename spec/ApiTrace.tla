------------------------------ MODULE ApiTrace ------------------------------
(***************************************************************************)
(* Merging, the method registry, product expansion, the timer, validation  *)
(* of coefficients and options, and printing: calls made by the harness and *)
(* what they returned, judged against their specification.  Sequential     *)
(* objects (registry, timer) are state machines that the recorded calls    *)
(* drive; the rest are functions.                                          *)
(***************************************************************************)
EXTENDS Tableau, Json, IOUtils, FiniteSets

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
ASSUME TLCSet(1, TLCEval([irk |-> IrkNames, erk |-> ErkNames]))
Reg == TLCGet(1)

VARIABLES ti, i, s
vars == <<ti, i, s>>
tr == Traces[ti]

Say(clause, detail) ==
  PrintT("VIOL|" \o tr.id \o "|" \o ToString(i) \o "|" \o clause \o "|" \o detail)
Require(name, holds, detail) == IF holds THEN TRUE ELSE Say(name, detail)
VSame(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : RSame(u[k], v[k])
MSame(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : VSame(u[k], v[k])
Bit(n, k) == (n \div (2 ^ k)) % 2
Or(a, b) == LET f[k \in 0..15] == IF k = 15 THEN 0 ELSE
                  (IF Bit(a, k) = 1 \/ Bit(b, k) = 1 THEN 2 ^ k ELSE 0) + f[k + 1] IN f[0]

-----------------------------------------------------------------------------
(* C11 *)
Same(a, b) == /\ a.st = b.st /\ a.C = b.C /\ VSame(a.T, b.T) /\ MSame(a.Y, b.Y) /\ MSame(a.K, b.K)
              /\ MSame(a.E, b.E) /\ VSame(a.N, b.N) /\ RSame(a.el, b.el) /\ RSame(a.af, b.af)
Merged(a, b, m) ==
  /\ Require("status is the union", m.st = Or(a.st, b.st), ToString(m.st))
  /\ Require("times", VSame(m.T, a.T \o b.T), ToString(Len(m.T)))
  /\ Require("states", MSame(m.Y, a.Y \o b.Y), ToString(Len(m.Y)))
  /\ Require("stages", MSame(m.K, a.K \o b.K), ToString(Len(m.K)))
  /\ Require("error vectors", MSame(m.E, a.E \o b.E), ToString(Len(m.E)))
  /\ Require("error norms", VSame(m.N, a.N \o b.N), ToString(Len(m.N)))
  /\ Require("counters", /\ Len(m.C) = Len(a.C)
                         /\ \A k \in 1..Len(a.C) : m.C[k] = a.C[k] + b.C[k], ToString(m.C))
  /\ Require("elapsed time", RNear(m.el, RAdd(a.el, b.el), RMul("1e-15", RAbs(RAdd(a.el, b.el)))), RShow(m.el))
  /\ LET na == RInt(Len(a.T))  nb == RInt(Len(b.T))
         sum == RAdd(RMul(na, a.af), RMul(nb, b.af)) IN
     Require("accepted fraction",
       Len(a.T) + Len(b.T) > 0 =>
         RNear(m.af, RDiv(sum, RAdd(na, nb)), "1e-14"), RShow(m.af))
MergeCall ==
  /\ Merged(tr.a, tr.b, tr.m)
  /\ Merged(tr.a, tr.a, tr.aa)
  /\ Require("arguments unchanged", Same(tr.a, tr.a2) /\ Same(tr.b, tr.b2), "")

-----------------------------------------------------------------------------
(* C12: q = [fam, kind, arg(s)], answers; the registry has no state        *)
Codes(f) == DOMAIN Reg[f]
ToName(f, c) == IF c \in Codes(f) THEN Reg[f][c] ELSE ""
ToCode(f, nm) == IF \E c \in Codes(f) : Reg[f][c] = nm THEN CHOOSE c \in Codes(f) : Reg[f][c] = nm ELSE 0
Implemented(f, c) == c \in Codes(f) /\ (f = "erk" \/ c \in IrkMethods)
RegistryCall(q) ==
  CASE q.kind = "n" ->
         Require("name to code", q.code = ToCode(q.fam, q.name), q.fam \o " " \o q.name \o " " \o ToString(q.code))
    [] q.kind = "c" ->
         Require("code to name", q.name = ToName(q.fam, q.code), q.fam \o " " \o ToString(q.code) \o " " \o q.name)
    [] q.kind = "a" ->
         Require("all names", /\ Len(q.names) = Cardinality(Codes(q.fam))
                              /\ {q.names[k] : k \in 1..Len(q.names)} = {Reg[q.fam][c] : c \in Codes(q.fam)},
                 ToString(q.names))
    [] OTHER ->
         Require("coefficients carry the name",
                 q.code \in Codes(q.fam) => q.name = Reg[q.fam][q.code],
                 q.fam \o " " \o ToString(q.code) \o " " \o q.name)

-----------------------------------------------------------------------------
(* C20 *)
Expand(a, b) ==
  [k \in 1..(Len(a) * Len(b)) |-> a[((k - 1) \div Len(b)) + 1] \o b[((k - 1) % Len(b)) + 1]]
ExpandCall ==
  /\ Require("expansion", tr.ab = Expand(tr.a, tr.b), ToString(tr.ab))
  /\ Require("product of three, left", tr.ab_c = Expand(Expand(tr.a, tr.b), tr.c), ToString(tr.ab_c))
  /\ Require("product of three, right", tr.a_bc = tr.ab_c, ToString(tr.a_bc))
  /\ Require("arguments unchanged", tr.same, "")

-----------------------------------------------------------------------------
(* C22: the timer.  s = [now, tic, stored, out], times in microseconds;    *)
(* out is 0 (none), 1 or 2: the stream in use                              *)
TimerInit == [now |-> tr.t0, tic |-> tr.t0, stored |-> tr.t0, out |-> tr.out]
TimerNext(o) ==
  CASE o.op = "a" -> [s EXCEPT !.now = RAdd(@, o.us)]
    [] o.op = "t" -> [s EXCEPT !.tic = s.now]
    [] o.op = "s" -> [s EXCEPT !.stored = s.tic]
    [] o.op = "O" -> [s EXCEPT !.out = o.k]
    [] o.op = "D" -> [s EXCEPT !.out = 0]
    [] OTHER -> s
Since(t) == RDiv(RSub(s.now, t), "1000")
MsOK(x, ms) == RNear(x, ms, RAdd("1e-9", RMul("1e-13", RAbs(ms))))
TimerCall(o, r) ==
  /\ Require("elapsed since the last start", o.op = "c" => MsOK(r.ms, Since(s.tic)), ToString(r))
  /\ Require("elapsed since a stored start", o.op = "e" => MsOK(r.ms, Since(s.stored)), ToString(r))
  /\ Require("elapsed since a given start", o.op = "x" => MsOK(r.ms, Since(o.at)), ToString(r))
  /\ Require("prints one line, if a stream is set",
       /\ Len(r.o1) = IF o.op = "c" /\ s.out = 1 THEN 1 ELSE 0
       /\ Len(r.o2) = IF o.op = "c" /\ s.out = 2 THEN 1 ELSE 0
       /\ ~r.std, ToString(r))
  /\ Require("the line has the message and the number",
       (o.op = "c" /\ Len(r.o1 \o r.o2) = 1) =>
         /\ r.hasmsg /\ r.order
         /\ Len(r.millis) = 1 /\ Len(r.secs) = 1
         /\ RNear(r.millis[1], Since(s.tic), RMul("1e-5", RAbs(Since(s.tic))))
         /\ RNear(RMul("1000", r.secs[1]), Since(s.tic), RMul("1e-5", RAbs(Since(s.tic))))
         /\ \E k \in 1..Len(r.nums) :
              RNear(r.nums[k], Since(s.tic), RMul("1e-5", RAbs(Since(s.tic)))), ToString(r))

-----------------------------------------------------------------------------
(* C23 *)
ShapeOK(o) ==
  LET ok == o.nb > 0 /\ o.nc = o.nb /\ o.nr = o.nb /\ o.ncol = o.nb IN
  IF o.fam = "irk" THEN ok ELSE ok /\ ~(o.nonzero /\ o.aj >= o.ai)
ValidCall(o) ==
  CASE o.kind = "shape" -> Require("accepted exactly when usable", o.valid = ShapeOK(o), ToString(o))
    [] o.kind = "method" -> Require("coefficients of a method",
          o.valid = Implemented(o.fam, o.code), ToString(o))
    [] OTHER -> Require("options", o.valid = (o.fam = "erk" \/ o.newton), ToString(o))

-----------------------------------------------------------------------------
Init == /\ ti \in 1..Len(Traces)
        /\ i = 1
        /\ s = IF Traces[ti].what = "timer" THEN TimerInit ELSE <<>>

Steps == IF tr.end # "ok" THEN 1
         ELSE IF tr.what \in {"registry", "valid"} THEN Len(tr.q)
         ELSE IF tr.what = "timer" THEN Len(tr.ops) ELSE 1
Next ==
  /\ i <= Steps
  /\ IF tr.end # "ok" THEN Say("the calls return", tr.end)
     ELSE CASE tr.what = "merge" -> MergeCall
            [] tr.what = "registry" -> RegistryCall(tr.q[i])
            [] tr.what = "expand" -> ExpandCall
            [] tr.what = "timer" -> TimerCall(tr.ops[i], tr.log[i])
            [] OTHER -> ValidCall(tr.q[i])
  /\ s' = IF tr.end = "ok" /\ tr.what = "timer" THEN TimerNext(tr.ops[i]) ELSE s
  /\ i' = i + 1
  /\ UNCHANGED ti
Spec == Init /\ [][Next]_vars
=============================================================================
