----------------------------- MODULE CoefTrace -----------------------------
(***************************************************************************)
(* C13 and C14.  The coefficients the library returns are judged           *)
(*  - against the published methods of Tableau, entry by entry,            *)
(*  - against the order conditions of all rooted trees up to CHECKORDER,   *)
(*  - beyond that against Butcher's simplifying assumptions B, C and D,    *)
(*    which imply the order (p <= eta + zeta + 1 and p <= 2 eta + 2),      *)
(* and the dense output weights against the integrals of the Lagrange      *)
(* polynomials.                                                            *)
(***************************************************************************)
(* tr.fp: embedded weights and gamma to ten digits, for the messages.      *)
EXTENDS Tableau, Json, IOUtils, Sequences, FiniteSets

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
Prop == IOEnv.CHECK
Deep == IF IOEnv.DEEP = "1" THEN 9 ELSE 6
VARIABLES ti, phase
vars == <<ti, phase>>
tr == Traces[ti]

Say(clause, detail) ==
  PrintT("VIOL|" \o tr.id \o "|" \o ToString(phase) \o "|" \o clause \o "|" \o detail)
Require(name, holds, detail) == IF holds THEN TRUE ELSE Say(name, detail)

Eps == "2.220446049250313e-16"
Min2(a, b) == IF a < b THEN a ELSE b
(* the rounding of a handful of double operations on numbers of size 1     *)
Ulp(x) == RMul("8", RMul(Eps, RMax("1", RAbs(x))))
VClose(u, v) == /\ Len(u) = Len(v) /\ \A i \in 1..Len(u) : RNear(u[i], v[i], Ulp(v[i]))
MClose(u, v) == /\ Len(u) = Len(v) /\ \A i \in 1..Len(u) : VClose(u[i], v[i])

-----------------------------------------------------------------------------
(* Rooted trees, ordered (so most occur several times, which is harmless): *)
(* every tree with n > 1 nodes is one with k nodes whose root gets one     *)
(* with n - k nodes as an additional child.  A tree carries its elementary *)
(* weight vector phi, where sum_i b_i phi_i is its elementary weight, the  *)
(* same with magnitudes, and its density.                                  *)
Trees(A, N) ==
  LET s == Len(A)
      one == TLCEval([i \in 1..s |-> "1"])
      Join(u, v) ==
        [phi |-> VMul(u.phi, TLCEval(MatVec(A, v.phi))),
         mag |-> VMul(u.mag, TLCEval(MatVecAbs(A, v.mag))),
         n   |-> u.n + v.n,
         den |-> RMul(RMul(RInt(u.n + v.n), v.den), RDiv(u.den, RInt(u.n)))]
      T[n \in 1..N] ==
        IF n = 1 THEN <<[phi |-> one, mag |-> one, n |-> 1, den |-> "1"]>>
        ELSE LET part[k \in 0..(n - 1)] ==
                   IF k = 0 THEN <<>>
                   ELSE part[k - 1] \o
                     TLCEval([x \in 1..(Len(T[k]) * Len(T[n - k])) |->
                       TLCEval(Join(T[k][((x - 1) \div Len(T[n - k])) + 1],
                                    T[n - k][((x - 1) % Len(T[n - k])) + 1]))])
             IN TLCEval(part[n - 1])
  IN TLCEval([n \in 1..N |-> T[n]])

OrderConditions(what, A, b, p) ==
  LET N == Min2(p, Deep)
      T == Trees(A, N) IN
  \A n \in 1..N : \A x \in 1..Len(T[n]) :
    LET t == T[n][x]
        w == RDot(b, t.phi) IN
    Require(what \o ": order condition of a tree with " \o ToString(n) \o " nodes",
      RNear(w, RDiv("1", t.den), RMul("64", RMul(Eps, RMax("1", RDotAbs(b, t.mag))))),
      IF what = "method" THEN RShow(w) \o " instead of " \o RShow(RDiv("1", t.den)) ELSE tr.fp)

(* B(p): sum b_i c_i^(k-1) = 1/k *)
Pow(c, k) == TLCEval([j \in 1..Len(c) |-> RIPow(c[j], k)])
B(b, c, p) == \A k \in 1..p :
  RNear(RDot(b, Pow(c, k - 1)), RDiv("1", RInt(k)), RMul("16", RMul(Eps, RMax("1", RDotAbs(b, Pow(c, k - 1))))))
(* C(q): sum_j a_ij c_j^(k-1) = c_i^k / k; stages beyond `rows' do not count *)
C(A, c, q, rows) == \A k \in 1..q : \A i \in 1..rows :
  RNear(RDot(A[i], Pow(c, k - 1)), RDiv(RIPow(c[i], k), RInt(k)), RMul("16", RMul(Eps, RMax("1", RDotAbs(A[i], Pow(c, k - 1))))))
(* D(z): sum_i b_i c_i^(k-1) a_ij = b_j (1 - c_j^k) / k *)
D(A, b, c, z) == \A k \in 1..z : \A j \in 1..Len(b) :
  LET col == TLCEval([i \in 1..Len(b) |-> A[i][j]])
      w == VMul(b, Pow(c, k - 1)) IN
  RNear(RDot(w, col), RDiv(RMul(b[j], RSub("1", RIPow(c[j], k))), RInt(k)),
        RMul("16", RMul(Eps, RMax("1", RDotAbs(w, col)))))

(* eta and zeta of the implicit methods *)
Simplifying(m) ==
  LET d == IrkFamily[m] IN
  CASE d.fam = "gauss"     -> <<d.s, d.s>>
    [] d.fam = "radau"     -> <<d.s, d.s - 1>>
    [] d.fam = "lobatto3a" -> <<d.s, d.s - 2>>
    [] OTHER               -> <<d.s - 1, d.s - 1>>

-----------------------------------------------------------------------------
(* The embedded method of an implicit one has an explicit stage at the     *)
(* start of the step with weight gamma, in front of the others.            *)
Ext(A) == LET z == <<TLCEval([j \in 1..(Len(A) + 1) |-> "0"])>> IN
  z \o TLCEval([i \in 1..Len(A) |-> <<"0">> \o A[i]])

Shape(k, s) ==
  /\ Len(k.b) = s /\ Len(k.c) = s /\ Len(k.A) = s
  /\ \A i \in 1..Len(k.A) : Len(k.A[i]) = s
  /\ Len(k.b2) \in {0, s}

Coefficients ==
  LET k == tr.res.k
      e == tr.fam = "erk"
      t == Tab(tr.fam, tr.method)
      s == Len(t.b)
      o == IF e THEN <<t.order, t.order2>> ELSE IrkOrders[tr.method]
  IN
  /\ Require("shape", Shape(k, s), "")
  /\ Require("declared orders", k.order = o[1] /\ (Len(k.b2) = 0 \/ k.order2 = o[2]),
       ToString(<<k.order, k.order2>>))
  /\ Require("has its embedded method", (Len(k.b2) > 0) = (o[2] > 0), "")
  /\ Shape(k, s) =>
     /\ Require("matrix", MClose(k.A, t.A), ToString(k.A))
     /\ Require("weights", VClose(k.b, t.b), ToString(k.b))
     /\ Require("nodes", VClose(k.c, t.c), ToString(k.c))
     /\ e => Require("embedded weights", VClose(k.b2, t.b2), ToString(k.b2))
     /\ Require("row sums are the nodes",
          \A i \in 1..s : RNear(RSum(k.A[i]), k.c[i], RMul("4", RMul(Eps, RMax("1", RDotAbs(k.A[i], TLCEval([j \in 1..s |-> "1"])))))),
          ToString(k.c))
     /\ Require("first same as last",
          k.fsal => /\ VClose(k.A[s], k.b) /\ RNear(k.c[s], "1", Eps)
                    /\ RSame(k.c[1], "0") /\ RSame(RMaxAbs(k.A[1]), "0"), "")
     /\ e => Require("first same as last is used where published", k.fsal = t.fsal, "")
     /\ OrderConditions("method", k.A, k.b, o[1])
     /\ IF e \/ Len(k.b2) = 0 THEN TRUE
        ELSE LET z == Simplifying(tr.method) IN
             /\ Require("order by simplifying assumptions",
                  z[1] + z[2] + 1 >= o[1] /\ 2 * z[1] + 2 >= o[1], "")
             /\ Require("B", B(k.b, k.c, o[1]), ToString(k.b))
             /\ Require("C", C(k.A, k.c, z[1], IF tr.method = 240 THEN 2 ELSE s), ToString(k.A))
             /\ Require("D", tr.method = 240 \/ D(k.A, k.b, k.c, z[2]), ToString(k.A))
     /\ Len(k.b2) = s =>
        IF e THEN OrderConditions("embedded method", k.A, k.b2, o[2])
        ELSE LET be == <<k.gamma>> \o k.b2 IN
             /\ OrderConditions("embedded method", Ext(k.A), be, Min2(o[2], 3))
             /\ Require("embedded weights integrate polynomials of degree below the order",
                  B(be, <<"0">> \o k.c, o[2]), tr.fp)
             (* otherwise the error estimate is zero; the explicit stage is  *)
             (* the same as a stage of the method with a row of zeros        *)
             /\ Require("embedded method is a different one",
                  LET zero == {j \in 1..s : RSame(k.c[j], "0") /\ RSame(RMaxAbs(k.A[j]), "0")}
                      atstart == RSum(<<k.gamma>> \o TLCEval([j \in 1..s |-> IF j \in zero THEN RSub(k.b2[j], k.b[j]) ELSE "0"])) IN
                  \/ RGt(RAbs(atstart), "1e-9")
                  \/ \E j \in 1..s : j \notin zero /\ ~RNear(k.b2[j], k.b[j], "1e-9"),
                  tr.fp)

-----------------------------------------------------------------------------
(* C14.  w[x] are the weights for theta[x].                                *)
(* Evaluated from expanded polynomials, so the rounding is relative to the *)
(* magnitudes of their coefficients: sum_k |B_jk| theta^(s+1-k).           *)
DenseAt(Bm, c, theta, w) ==
  LET s == Len(c)
      q == Quad(c, theta)
      pw == TLCEval([k \in 1..s |-> RIPow(RAbs(theta), s + 1 - k)])
      (* conditioning of the coefficients: products of (1 + |c_k|) over the *)
      (* products of differences                                            *)
      amp == TLCEval([j \in 1..s |->
        LET f[k \in 0..s] == IF k = 0 THEN "1" ELSE IF k = j THEN f[k - 1]
              ELSE RMul(f[k - 1], RDiv(RAdd(RMax("1", RAbs(theta)), RAbs(c[k])), RAbs(RSub(c[j], c[k])))) IN f[s]])
  IN /\ Require("size", Len(w) = s, ToString(w))
     /\ Len(w) = s =>
          \A j \in 1..s :
            LET tol == RMul("64", RMul(Eps, RMul(RMax("1", RAbs(theta)), amp[j]))) IN
            Require("integral of the Lagrange polynomial", RNear(w[j], q[j], tol),
              "theta " \o RShow(theta) \o " weight " \o ToString(j) \o " " \o RShow(w[j]) \o " instead of " \o RShow(q[j]))
Dense ==
  IF tr.what = "interp"
  THEN \A x \in 1..Len(tr.theta) :
         /\ DenseAt(tr.res.B, tr.nodes, tr.theta[x], tr.res.w[x])
         /\ DenseAt(tr.res.B, tr.nodes, tr.theta[x], tr.res.we[x])
  ELSE
    LET k == tr.res.k
        d == IrkFamily[tr.method]
        s == Len(k.b)
        W(th) == tr.res.w[CHOOSE x \in 1..Len(tr.theta) : RSame(tr.theta[x], th)]
        tol == TLCEval([j \in 1..s |-> "1e-11"]) IN
    Require("has dense output exactly when it did", (Len(k.binterp) > 0) = tr.dense, "") /\
    (Len(k.binterp) > 0 =>
      /\ Require("theta = 1 gives the weights", VNear(W("1"), k.b, tol), ToString(W("1")))
      /\ Require("theta = 0 gives zero", VNear(W("0"), TLCEval([j \in 1..s |-> "0"]), tol), ToString(W("0")))
      /\ d.fam # "lobatto3c" =>
           \A i \in 1..s : Require("theta = c_i gives row i", VNear(W(k.c[i]), k.A[i], tol), ToString(i))
      /\ \A x \in 1..Len(tr.theta) : DenseAt(k.binterp, k.c, tr.theta[x], tr.res.w[x]))

-----------------------------------------------------------------------------
Init == ti \in 1..Len(Traces) /\ phase = 0
Next ==
  /\ phase = 0 /\ phase' = 1 /\ UNCHANGED ti
  /\ IF tr.res.end # "ok" THEN Say("the call returns", tr.res.end)
     ELSE IF Prop = "C13" THEN Coefficients ELSE Dense
Spec == Init /\ [][Next]_vars
=============================================================================
