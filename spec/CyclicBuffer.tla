---------------------------- MODULE CyclicBuffer ----------------------------
(***************************************************************************)
(* A buffer of period p holds the p most recently pushed values.           *)
(*   b.p     period                                                        *)
(*   b.vals  the values held, newest first                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

New(p)         == [p |-> p, vals |-> <<>>]
Front(s, k)    == IF Len(s) <= k THEN s ELSE SubSeq(s, 1, k)
Push(b, v)     == [b EXCEPT !.vals = Front(<<v>> \o @, b.p)]
Write(b, i, v) == [b EXCEPT !.vals[i + 1] = v]          \* i-th newest, from 0
Resize(b, p)   == New(p)
Size(b)        == Len(b.vals)

(***************************************************************************)
(* How the library stores it: every value twice, so that the values held   *)
(* are always adjacent; cur is the position of the newest one.             *)
(***************************************************************************)
RNew(p) == [p |-> p, cur |-> 0, size |-> 0, st |-> [x \in 0..(2 * p - 1) |-> 0]]
RPush(r, v) ==
  LET nx == IF r.size = 0 THEN 0 ELSE r.cur + 1
      st == [x \in DOMAIN r.st |->
               IF x = nx \/ (nx >= r.p /\ x = nx - r.p) THEN v ELSE r.st[x]]
      wrap == nx = 2 * r.p - 1
  IN [r EXCEPT !.st = IF wrap THEN [x \in DOMAIN st |-> IF x < r.p THEN st[x + r.p] ELSE st[x]] ELSE st,
               !.cur = IF wrap THEN r.p - 1 ELSE nx,
               !.size = IF @ < r.p THEN @ + 1 ELSE @]
RWrite(r, i, v) == [r EXCEPT !.st[r.cur - i] = v]
(* what it represents *)
Abs(r) == [p |-> r.p, vals |-> [i \in 1..r.size |-> r.st[r.cur - (i - 1)]]]
=============================================================================
