------------------------------ MODULE Tableau ------------------------------
(***************************************************************************)
(* The published Runge-Kutta methods.                                      *)
(*                                                                         *)
(* Explicit methods are tables of fractions.  Implicit methods are given   *)
(* by what characterises them: the nodes are the roots of the polynomial   *)
(* that defines the family (checked by an ASSUME), the weights are the     *)
(* quadrature weights of those nodes, and the matrix is the collocation    *)
(* matrix (Gauss, Radau IIA, Lobatto IIIA) or the one with a_i1 = b_1 and  *)
(* C(s-1) (Lobatto IIIC).                                                  *)
(***************************************************************************)
EXTENDS Num, Integers, TLC

(* ------------------------------------------------------- polynomials -- *)
(* a polynomial is the sequence of its coefficients, lowest degree first   *)
Coef(p, k) == IF k >= 1 /\ k <= Len(p) THEN p[k] ELSE "0"
PMul(p, q) ==
  TLCEval([k \in 1..(Len(p) + Len(q) - 1) |->
    RSum(TLCEval([i \in 1..k |-> RMul(Coef(p, i), Coef(q, k + 1 - i))]))])
(* Recursive functions rather than RECURSIVE operators, so that TLC knows  *)
(* the tableaus to be constant and evaluates them once.                    *)
PPow(p, n) ==
  LET f[k \in 0..n] == IF k = 0 THEN <<"1">> ELSE PMul(p, f[k - 1]) IN f[n]
PDer1(p) == TLCEval([k \in 1..(Len(p) - 1) |-> RMul(RInt(k), p[k + 1])])
PDer(p, n) ==
  LET f[k \in 0..n] == IF k = 0 THEN p ELSE PDer1(f[k - 1]) IN f[n]
PEval(p, x) ==
  LET f[k \in 1..(Len(p) + 1)] == IF k > Len(p) THEN "0" ELSE RAdd(p[k], RMul(x, f[k + 1])) IN f[1]
RIPow(x, n) ==
  LET f[k \in 0..n] == IF k = 0 THEN "1" ELSE RMul(x, f[k - 1]) IN f[n]

NodePoly(fam, s) ==
  LET x == <<"0", "1">>  xm == <<"-1", "1">> IN
  CASE fam = "gauss" -> PDer(PMul(PPow(x, s), PPow(xm, s)), s)
    [] fam = "radau" -> PDer(PMul(PPow(x, s - 1), PPow(xm, s)), s - 1)
    [] OTHER         -> PDer(PMul(PPow(x, s - 1), PPow(xm, s - 1)), s - 2)

Nodes(fam, s) ==
  CASE fam = "radau" /\ s = 1 -> <<"1">>
    [] fam = "radau" /\ s = 2 -> <<"0.333333333333333333333333333333333333333333", "1">>
    [] fam = "radau" /\ s = 3 -> <<"0.155051025721682190180271592529410860803405", "0.644948974278317809819728407470589139196595", "1">>
    [] fam = "radau" /\ s = 5 -> <<"0.0571041961145176821931211925541156212350779", "0.276843013638123827680045997685625141110889", "0.583590432368916820056697668662917248693433", "0.860240135656219447847912918875119766738378", "1">>
    [] fam = "radau" /\ s = 7 -> <<"0.0293164271597848919720502769131649103737304", "0.148078599668484291849976852495979212230249", "0.336984690281154299097052972080775705197569", "0.558671518771550132081393341805521940074368", "0.769233862030054500916883360115645451837142", "0.926945671319741114851873965819682011056172", "1">>
    [] fam = "lobatto" /\ s = 3 -> <<"0", "0.5", "1">>
    [] fam = "lobatto" /\ s = 4 -> <<"0", "0.276393202250021030359082633126872376455938", "0.723606797749978969640917366873127623544062", "1">>
    [] fam = "lobatto" /\ s = 5 -> <<"0", "0.172673164646011428100853771876570822215396", "0.5", "0.827326835353988571899146228123429177784604", "1">>
    [] fam = "lobatto" /\ s = 7 -> <<"0", "0.0848880518607165350639838930162674302064148", "0.265575603264642893098114059045616835297201", "0.5", "0.734424396735357106901885940954383164702799", "0.915111948139283464936016106983732569793585", "1">>
    [] fam = "gauss" /\ s = 2 -> <<"0.211324865405187117745425609749021272176199", "0.788675134594812882254574390250978727823801">>
    [] fam = "gauss" /\ s = 3 -> <<"0.112701665379258311482073460021760038916708", "0.5", "0.887298334620741688517926539978239961083292">>
    [] fam = "gauss" /\ s = 5 -> <<"0.046910077030668003601186560850303517437174", "0.230765344947158454481842789649895597516357", "0.5", "0.769234655052841545518157210350104402483643", "0.953089922969331996398813439149696482562826">>
    [] fam = "gauss" /\ s = 7 -> <<"0.0254460438286207377369051579760743687996145", "0.129234407200302780068067613359605796462926", "0.297077424311301416546696793961519268326309", "0.5", "0.702922575688698583453303206038480731673691", "0.870765592799697219931932386640394203537074", "0.974553956171379262263094842023925631200385">>

(* ----------------------------------------------------------- families -- *)
(* solve sum_j x_j c_j^(k-1) = r_k, k = 1..s                               *)
Vander(c) == TLCEval([k \in 1..Len(c) |-> TLCEval([j \in 1..Len(c) |-> RIPow(c[j], k - 1)])])
Quad(c, theta) ==   \* integrals from 0 to theta of the Lagrange polynomials
  VSolve(Vander(c), TLCEval([k \in 1..Len(c) |-> RDiv(RIPow(theta, k), RInt(k))]))
Colloc(c) == TLCEval([i \in 1..Len(c) |-> Quad(c, c[i])])
LobIIIC(c) ==
  LET s == Len(c)
      b == Quad(c, "1")
      V == Vander(c)
      e1 == TLCEval([j \in 1..s |-> IF j = 1 THEN "1" ELSE "0"])
      M == TLCEval([k \in 1..s |-> IF k = 1 THEN e1 ELSE V[k - 1]])
  IN TLCEval([i \in 1..s |->
       VSolve(M, TLCEval([k \in 1..s |-> IF k = 1 THEN b[1]
                                 ELSE RDiv(RIPow(c[i], k - 1), RInt(k - 1))]))])

(* Gauss-Legendre 42 of the library carries an explicit third stage at the *)
(* start of the step, with weight zero, for its embedded method.           *)
Pad3(A, b, c) ==
  [A |-> <<A[1] \o <<"0">>, A[2] \o <<"0">>, <<"0", "0", "0">>>>,
   b |-> b \o <<"0">>, c |-> c \o <<"0">>]

IrkFamily == [m \in {200, 210, 211, 212, 213, 220, 222, 230, 231, 232, 240, 243} |->
  CASE m = 200 -> [name |-> "IMPLICIT_EULER", fam |-> "radau", s |-> 1]
    [] m = 210 -> [name |-> "RADAU_IIA_32", fam |-> "radau", s |-> 2]
    [] m = 211 -> [name |-> "RADAU_IIA_53", fam |-> "radau", s |-> 3]
    [] m = 212 -> [name |-> "RADAU_IIA_95", fam |-> "radau", s |-> 5]
    [] m = 213 -> [name |-> "RADAU_IIA_137", fam |-> "radau", s |-> 7]
    [] m = 220 -> [name |-> "LOBATTO_IIIA_43", fam |-> "lobatto3a", s |-> 3]
    [] m = 222 -> [name |-> "LOBATTO_IIIA_127", fam |-> "lobatto3a", s |-> 7]
    [] m = 230 -> [name |-> "LOBATTO_IIIC_43", fam |-> "lobatto3c", s |-> 3]
    [] m = 231 -> [name |-> "LOBATTO_IIIC_64", fam |-> "lobatto3c", s |-> 4]
    [] m = 232 -> [name |-> "LOBATTO_IIIC_85", fam |-> "lobatto3c", s |-> 5]
    [] m = 240 -> [name |-> "GAUSS_LEGENDRE_42", fam |-> "gauss", s |-> 2]
    [] m = 243 -> [name |-> "GAUSS_LEGENDRE_147", fam |-> "gauss", s |-> 7]]
IrkMethods == DOMAIN IrkFamily
NodeFam(f) == IF f \in {"lobatto3a", "lobatto3c"} THEN "lobatto" ELSE f

IrkMake(m) ==
  LET d == IrkFamily[m]
      c == Nodes(NodeFam(d.fam), d.s)
      A == IF d.fam = "lobatto3c" THEN LobIIIC(c) ELSE Colloc(c)
      b == Quad(c, "1")
  IN IF m = 240 THEN Pad3(A, b, c) ELSE [A |-> A, b |-> b, c |-> c]
IrkTab == TLCEval([m \in IrkMethods |-> TLCEval(IrkMake(m))])

(* the nodes above are what they are called *)
ASSUME NodesAreRoots ==
  \A m \in IrkMethods :
    LET d == IrkFamily[m]
        c == Nodes(NodeFam(d.fam), d.s)
        P == NodePoly(NodeFam(d.fam), d.s)
    IN /\ Len(c) = d.s
       /\ \A i \in 1..d.s : RNear(PEval(P, c[i]), "0", "1e-30")
       /\ \A i \in 1..(d.s - 1) : RLt(c[i], c[i + 1])

(* ----------------------------------------------------- explicit methods *)

ErkTab == TLCEval([m \in {100, 110, 120, 130, 131, 132} |->
  CASE m = 100 ->
     [A |-> <<<<"0">>>>,
      b |-> <<"1">>,
      b2 |-> <<>>,
      c |-> <<"0">>, fsal |-> FALSE, order |-> 1, order2 |-> 0]
    [] m = 110 ->
     [A |-> <<<<"0", "0", "0", "0">>,
              <<"1/2", "0", "0", "0">>,
              <<"0", "1/2", "0", "0">>,
              <<"0", "0", "1", "0">>>>,
      b |-> <<"1/6", "1/3", "1/3", "1/6">>,
      b2 |-> <<>>,
      c |-> <<"0", "1/2", "1/2", "1">>, fsal |-> FALSE, order |-> 4, order2 |-> 0]
    [] m = 120 ->
     [A |-> <<<<"0", "0", "0", "0">>,
              <<"1/2", "0", "0", "0">>,
              <<"0", "3/4", "0", "0">>,
              <<"2/9", "1/3", "4/9", "0">>>>,
      b |-> <<"2/9", "1/3", "4/9", "0">>,
      b2 |-> <<"7/24", "1/4", "1/3", "1/8">>,
      c |-> <<"0", "1/2", "3/4", "1">>, fsal |-> TRUE, order |-> 3, order2 |-> 2]
    [] m = 130 ->
     [A |-> <<<<"0", "0", "0", "0", "0", "0">>,
              <<"1/5", "0", "0", "0", "0", "0">>,
              <<"3/40", "9/40", "0", "0", "0", "0">>,
              <<"3/10", "-9/10", "6/5", "0", "0", "0">>,
              <<"-11/54", "5/2", "-70/27", "35/27", "0", "0">>,
              <<"1631/55296", "175/512", "575/13824", "44275/110592", "253/4096", "0">>>>,
      b |-> <<"37/378", "0", "250/621", "125/594", "0", "512/1771">>,
      b2 |-> <<"2825/27648", "0", "18575/48384", "13525/55296", "277/14336", "1/4">>,
      c |-> <<"0", "1/5", "3/10", "3/5", "1", "7/8">>, fsal |-> FALSE, order |-> 5, order2 |-> 4]
    [] m = 131 ->
     [A |-> <<<<"0", "0", "0", "0", "0", "0", "0">>,
              <<"1/5", "0", "0", "0", "0", "0", "0">>,
              <<"3/40", "9/40", "0", "0", "0", "0", "0">>,
              <<"44/45", "-56/15", "32/9", "0", "0", "0", "0">>,
              <<"19372/6561", "-25360/2187", "64448/6561", "-212/729", "0", "0", "0">>,
              <<"9017/3168", "-355/33", "46732/5247", "49/176", "-5103/18656", "0", "0">>,
              <<"35/384", "0", "500/1113", "125/192", "-2187/6784", "11/84", "0">>>>,
      b |-> <<"35/384", "0", "500/1113", "125/192", "-2187/6784", "11/84", "0">>,
      b2 |-> <<"5179/57600", "0", "7571/16695", "393/640", "-92097/339200", "187/2100", "1/40">>,
      c |-> <<"0", "1/5", "3/10", "4/5", "8/9", "1", "1">>, fsal |-> TRUE, order |-> 5, order2 |-> 4]
    [] m = 132 ->
     [A |-> <<<<"0", "0", "0", "0", "0", "0">>,
              <<"1/4", "0", "0", "0", "0", "0">>,
              <<"3/32", "9/32", "0", "0", "0", "0">>,
              <<"1932/2197", "-7200/2197", "7296/2197", "0", "0", "0">>,
              <<"439/216", "-8", "3680/513", "-845/4104", "0", "0">>,
              <<"-8/27", "2", "-3544/2565", "1859/4104", "-11/40", "0">>>>,
      b |-> <<"16/135", "0", "6656/12825", "28561/56430", "-9/50", "2/55">>,
      b2 |-> <<"25/216", "0", "1408/2565", "2197/4104", "-1/5", "0">>,
      c |-> <<"0", "1/4", "3/8", "12/13", "1", "1/2">>, fsal |-> FALSE, order |-> 5, order2 |-> 4]])
ErkMethods == DOMAIN ErkTab

(* published names and codes *)
ErkNames == [m \in ErkMethods |->
  CASE m = 100 -> "EXPLICIT_EULER"
    [] m = 110 -> "RUNGE_KUTTA_4"
    [] m = 120 -> "BOGACKI_SHAMPINE_32"
    [] m = 130 -> "CASH_KARP_54"
    [] m = 131 -> "DORMAND_PRINCE_54"
    [] m = 132 -> "FEHLBERG_54"]
(* published codes for which the library has no coefficients               *)
IrkUnimplemented == [m \in {221, 233, 241, 242} |->
  CASE m = 221 -> "LOBATTO_IIIA_85"
    [] m = 233 -> "LOBATTO_IIIC_127"
    [] m = 241 -> "GAUSS_LEGENDRE_63"
    [] m = 242 -> "GAUSS_LEGENDRE_105"]
IrkNames == [m \in IrkMethods \cup DOMAIN IrkUnimplemented |->
  IF m \in IrkMethods THEN IrkFamily[m].name ELSE IrkUnimplemented[m]]

(* Orders of the implicit pairs: main and embedded method.  0: no embedded *)
(* method.  (IIIA_43 and IIIC_43 carry an embedded method of order 2.)     *)
IrkOrders == [m \in IrkMethods |->
  CASE m = 200 -> <<1, 0>>  [] m = 210 -> <<3, 2>>  [] m = 211 -> <<5, 3>>
    [] m = 212 -> <<9, 5>>  [] m = 213 -> <<13, 7>> [] m = 220 -> <<4, 2>>
    [] m = 222 -> <<12, 7>> [] m = 230 -> <<4, 2>>  [] m = 231 -> <<6, 4>>
    [] m = 232 -> <<8, 5>>  [] m = 240 -> <<4, 2>>  [] m = 243 -> <<14, 7>>]
LowOrder(fam, m) ==
  LET o == IF fam = "erk" THEN <<ErkTab[m].order, ErkTab[m].order2>> ELSE IrkOrders[m]
  IN IF o[1] < o[2] THEN o[1] ELSE o[2]

Tab(fam, m) == IF fam = "erk" THEN ErkTab[m] ELSE IrkTab[m]
=============================================================================
