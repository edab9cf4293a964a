-------------------------- MODULE StabilityTrace --------------------------
(***************************************************************************)
(* C29.  The stability region program tabulates, for a method named on its *)
(* command line, |R(z)| on a grid of the complex plane for the method and  *)
(* (where there is one) for its embedded method, and on a list of real z.  *)
(* Applied to y' = lambda y, one step of size dt multiplies by R(z),       *)
(* z = lambda dt, R(z) = 1 + gamma z + z b.K with (I - z A) K = 1; gamma   *)
(* is 0 for the method itself.                                             *)
(*                                                                         *)
(* tr = [id, known, fam, method, b2, gamma (of the embedded method),       *)
(*       code (exit code), rows], a row [file, x, y, v, e]:                *)
(*   file "region" or "embed": z = x + i y, value v; "limit": z = x,       *)
(*   value v for the method and e for the embedded method.                 *)
(* A row also has the place of the row in its file, w = <<block, line>>.   *)
(***************************************************************************)
EXTENDS Tableau, Json, IOUtils, Sequences

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
VARIABLES ti, i
vars == <<ti, i>>
tr == Traces[ti]

Say(clause, detail) ==
  PrintT("VIOL|" \o tr.id \o "|" \o ToString(i) \o "|" \o clause \o "|" \o detail)
Require(name, holds, detail) == IF holds THEN TRUE ELSE Say(name, detail)

-----------------------------------------------------------------------------
(* the grid and the list *)
NX == 400
NY == 80
GridX(k) == RAdd("-190", RDiv(RMul("200", RInt(k)), RInt(NX - 1)))
GridY(k) == RAdd("-20", RDiv(RMul("40", RInt(k)), RInt(NY - 1)))
RealZ == <<"-1e8", "-1e7", "-1e6", "-1e5", "-1e4", "-1e3", "-1e2", "-10", "-9", "-8", "-7", "-6", "-5", "-4",
  "-3", "-2", "-1.5", "-1", "-0.9", "-0.8", "-0.7", "-0.6", "-0.5", "-0.4", "-0.3", "-0.2", "-0.1", "0",
  "0.1", "0.2", "0.3", "0.4", "0.5", "0.5", "1">>

(* six significant digits are written *)
Printed(v, x) == RNear(v, x, RAdd(RMul("6e-6", RAbs(x)), "1e-12"))

-----------------------------------------------------------------------------
(* (I - (x + i y) A) (P + i Q) = 1 as a real system                        *)
Stages(A, x, y) ==
  LET s == Len(A)
      M == TLCEval([r \in 1..(2 * s) |-> [c \in 1..(2 * s) |->
             LET a == A[((r - 1) % s) + 1][((c - 1) % s) + 1]
                 top == r <= s  left == c <= s IN
             CASE top = left -> RSub(IF r = c THEN "1" ELSE "0", RMul(x, a))
               [] top /\ ~left -> RMul(y, a)
               [] OTHER -> RNeg(RMul(y, a))]]) IN
  VSolve(M, TLCEval([r \in 1..(2 * s) |-> IF r <= s THEN "1" ELSE "0"]))

(* [re, im, mag]: R(z), and the size of what is added up in it             *)
R(A, b, gamma, x, y) ==
  LET K == TLCEval(Stages(A, x, y))
      s == Len(b)
      P == TLCEval(SubSeq(K, 1, s))
      Q == TLCEval(SubSeq(K, s + 1, 2 * s))
      p == RDot(b, P)
      q == RDot(b, Q)
      z == RAdd(RAbs(x), RAbs(y)) IN
  [re |-> RAdd(RAdd("1", RMul(gamma, x)), RSub(RMul(x, p), RMul(y, q))),
   im |-> RAdd(RMul(gamma, y), RAdd(RMul(y, p), RMul(x, q))),
   mag |-> RAdd("1", RMul(z, RAdd(RAbs(gamma), RAdd(RDotAbs(b, P), RDotAbs(b, Q)))))]
Abs(r) == RSqrt(RAdd(RMul(r.re, r.re), RMul(r.im, r.im)))

(* the value v the program wrote for |R(z)|; at a pole it is infinite      *)
IsAbs(v, r) ==
  IF ~RFin(r.re) THEN ~RFin(v)
  ELSE LET a == Abs(r) IN RNear(v, a, RAdd(RMul("1e-5", a), RMul("1e-11", r.mag)))

-----------------------------------------------------------------------------
HasEmbedded == Len(tr.b2) > 0
Main(x, y) == LET t == Tab(tr.fam, tr.method) IN R(t.A, t.b, "0", x, y)
Embedded(x, y) == LET t == Tab(tr.fam, tr.method) IN R(t.A, tr.b2, tr.gamma, x, y)

(* All implicit methods of the library are A-stable; those of the families *)
(* Radau IIA and Lobatto IIIC also damp infinitely stiff components.       *)
AStable == tr.fam = "irk"
Damping == tr.fam = "irk" /\ IrkFamily[tr.method].fam \in {"radau", "lobatto3c"}

Row(w) ==
  CASE w.file = "region" ->
         LET x == GridX(w.w[2])  y == GridY(w.w[1]) IN
         /\ Require("grid", Printed(w.x, x) /\ Printed(w.y, y), ToString(<<w.w, w.x, w.y>>))
         /\ Require("stability region", IsAbs(w.v, Main(x, y)), ToString(w))
         /\ AStable /\ RLe(x, "0") =>
              Require("A-stable", RLe(w.v, "1.00001"), ToString(w))
    [] w.file = "embed" ->
         LET x == GridX(w.w[2])  y == GridY(w.w[1]) IN
         /\ Require("grid", Printed(w.x, x) /\ Printed(w.y, y), ToString(<<w.w, w.x, w.y>>))
         /\ Require("stability region of the embedded method", HasEmbedded /\ IsAbs(w.v, Embedded(x, y)), ToString(w))
    [] OTHER ->
         LET x == RealZ[w.w[2] + 1] IN
         /\ Require("list of z", Printed(w.x, x), ToString(<<w.w, w.x>>))
         /\ Require("stability on the real axis", IsAbs(w.v, Main(x, "0")), ToString(w))
         /\ Damping /\ w.w[2] = 0 => Require("damping", RLe(w.v, "1e-6"), ToString(w))
         /\ Require("stability of the embedded method on the real axis",
              IF HasEmbedded THEN IsAbs(w.e, Embedded(x, "0")) ELSE ~RFin(w.e), ToString(w))

(* counts: lines with numbers of the three files *)
Whole ==
  IF ~tr.known
  THEN /\ Require("unknown names are refused", tr.code > 0, ToString(tr.code))
       /\ Require("and nothing is written for them", tr.counts = <<0, 0, 0>>, ToString(tr.counts))
  ELSE /\ Require("ends normally", tr.code = 0, ToString(tr.code))
       /\ tr.code = 0 =>
            Require("number of rows",
              tr.counts = <<NX * NY, IF HasEmbedded THEN NX * NY ELSE 0, Len(RealZ)>>, ToString(tr.counts))

Init == ti \in 1..Len(Traces) /\ i = 0
Next ==
  /\ i <= Len(tr.rows)
  /\ IF i = 0 THEN Whole ELSE Row(tr.rows[i])
  /\ i' = i + 1
  /\ UNCHANGED ti
Spec == Init /\ [][Next]_vars
=============================================================================
