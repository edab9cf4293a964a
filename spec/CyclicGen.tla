------------------------------ MODULE CyclicGen -----------------------------
(* Random behaviours of CyclicBuffer (TLC -simulate), printed as sequences *)
(* of operations for the harness to replay.                                *)
EXTENDS CyclicBuffer, TLC

CONSTANTS MaxOps, Periods
VARIABLES b, k, nv, ops, p0
vars == <<b, k, nv, ops, p0>>
Id == 0..2

Init == /\ \E p, q \in Periods : b = [x \in Id |-> New(IF x = 0 THEN p ELSE IF x = 1 THEN q ELSE 0)]
                              /\ p0 = <<p, q>>
        /\ k = 0 /\ nv = 1 /\ ops = ""
S(n) == ToString(n)
Op(t) == ops' = (IF ops = "" THEN t ELSE ops \o ";" \o t)
DoPush(x) == b[x].p > 0 /\ b' = [b EXCEPT ![x] = Push(@, nv)] /\ Op("p:" \o S(x) \o ":" \o S(nv))
DoOwn(x) == Size(b[x]) > 0 /\ \E i \in 0..(Size(b[x]) - 1) :
  b' = [b EXCEPT ![x] = Push(@, b[x].vals[i + 1])] /\ Op("q:" \o S(x) \o ":" \o S(i))
DoWrite(x) == Size(b[x]) > 0 /\ \E i \in 0..(Size(b[x]) - 1) : \E o \in {"w:", "i:"} :
  b' = [b EXCEPT ![x] = Write(@, i, nv)] /\ Op(o \o S(x) \o ":" \o S(i) \o ":" \o S(nv))
DoResize(x) == \E p \in Periods : b' = [b EXCEPT ![x] = Resize(@, p)] /\ Op("r:" \o S(x) \o ":" \o S(p))
DoCopy(x) == \E y \in Id : \E o \in {"a:", "c:"} :
  b' = [b EXCEPT ![x] = b[y]] /\ Op(o \o S(x) \o ":" \o S(y))
(* pushes are what matters most *)
Next ==
  \/ /\ k < MaxOps
     /\ \E z \in 1..10, x \in Id :
          \/ z <= 5 /\ DoPush(x)
          \/ z = 6 /\ DoOwn(x)
          \/ z \in {7, 8} /\ DoWrite(x)
          \/ z = 9 /\ x > 0 /\ DoResize(x)
          \/ z = 10 /\ DoCopy(x)
     /\ k' = k + 1 /\ nv' = nv + 1 /\ UNCHANGED p0
  \/ /\ k = MaxOps
     /\ PrintT("INFO|" \o S(p0[1]) \o "|" \o S(p0[2]) \o "|" \o ops)
     /\ k' = k + 1 /\ UNCHANGED <<b, nv, ops, p0>>
Spec == Init /\ [][Next]_vars
=============================================================================
