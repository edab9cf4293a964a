-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic for the trace specifications.                           *)
(*                                                                         *)
(* A "Real" is a string: a decimal numeral, a C99 hexadecimal floating     *)
(* point numeral as printed by the harness ("%a", i.e. exactly the double  *)
(* the code computed), or one of "NaN", "Inf", "-Inf".  TLC evaluates the  *)
(* operators through Num.java, which computes with 40 significant decimal  *)
(* digits, so that the specification is a (nearly) exact oracle for code   *)
(* that computes with 16.  Only elementary arithmetic is implemented in    *)
(* Java; every formula of the methods is written in TLA+.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Real == STRING

(* scalars *)
RAdd(a, b) == CHOOSE r \in Real : TRUE
RSub(a, b) == CHOOSE r \in Real : TRUE
RMul(a, b) == CHOOSE r \in Real : TRUE
RDiv(a, b) == CHOOSE r \in Real : TRUE       \* x/0 is NaN
RPow(a, b) == CHOOSE r \in Real : TRUE       \* a^b, a > 0, double precision
RSqrt(a)   == CHOOSE r \in Real : TRUE
RAbs(a)    == CHOOSE r \in Real : TRUE
RInt(i)    == CHOOSE r \in Real : TRUE       \* the integer i
RDbl(a)    == CHOOSE r \in Real : TRUE       \* rounded to the nearest double
RLt(a, b)  == CHOOSE r \in BOOLEAN : TRUE    \* FALSE if either is NaN
RLe(a, b)  == CHOOSE r \in BOOLEAN : TRUE
RFin(a)    == CHOOSE r \in BOOLEAN : TRUE    \* neither NaN nor infinite
RShow(a)   == CHOOSE r \in STRING : TRUE     \* 17 digits, for messages

(* vectors: sequences of Reals *)
RSum(u)    == CHOOSE r \in Real : TRUE       \* sum of the elements
RDot(u, v) == CHOOSE r \in Real : TRUE       \* sum of u[i]*v[i]
RDotAbs(u, v) == CHOOSE r \in Real : TRUE    \* sum of |u[i]*v[i]|
RMaxAbs(u) == CHOOSE r \in Real : TRUE       \* max of |u[i]|, "0" if empty
VAdd(u, v) == CHOOSE r \in Seq(Real) : TRUE  \* elementwise
VSub(u, v) == CHOOSE r \in Seq(Real) : TRUE
VMul(u, v) == CHOOSE r \in Seq(Real) : TRUE
VScale(a, u) == CHOOSE r \in Seq(Real) : TRUE
VAbs(u)    == CHOOSE r \in Seq(Real) : TRUE
VLin(c, us) == CHOOSE r \in Seq(Real) : TRUE  \* sum of c[j]*us[j], us a non-empty sequence of vectors
VLinAbs(c, us) == CHOOSE r \in Seq(Real) : TRUE \* sum of |c[j]*us[j]|
VFin(u)    == CHOOSE r \in BOOLEAN : TRUE
VSolve(A, b) == CHOOSE r \in Seq(Real) : TRUE \* solution of A x = b (rows); all NaN if singular

(* derived *)
RNeg(a)    == RSub("0", a)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RGt(a, b)  == RLt(b, a)
RGe(a, b)  == RLe(b, a)
RSame(a, b) == RLe(a, b) /\ RLe(b, a)
(* |a - b| <= tol; FALSE if anything is NaN *)
RNear(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
(* for vectors, with a vector of tolerances *)
VNear(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : RNear(u[i], v[i], tol[i])
MatVec(A, v) == [i \in 1..Len(A) |-> RDot(A[i], v)]
MatVecAbs(A, v) == [i \in 1..Len(A) |-> RDotAbs(A[i], v)]
=============================================================================
