------------------------------ MODULE MCCyclic ------------------------------
(* The doubled storage refines the abstract buffer: every sequence of up   *)
(* to MaxOps operations on two buffers, including copies.                  *)
EXTENDS CyclicBuffer, TLC

CONSTANTS MaxOps, Periods
VARIABLES b, r, k, nv
vars == <<b, r, k, nv>>
Id == {1, 2}

Init == /\ \E p \in [Id -> Periods] : b = [x \in Id |-> New(p[x])] /\ r = [x \in Id |-> RNew(p[x])]
        /\ k = 0 /\ nv = 1
DoPush(x) == /\ b' = [b EXCEPT ![x] = Push(@, nv)] /\ r' = [r EXCEPT ![x] = RPush(@, nv)]
DoWrite(x) == \E i \in 0..(Size(b[x]) - 1) :
             /\ b' = [b EXCEPT ![x] = Write(@, i, nv)] /\ r' = [r EXCEPT ![x] = RWrite(@, i, nv)]
DoResize(x) == \E p \in Periods : b' = [b EXCEPT ![x] = Resize(@, p)] /\ r' = [r EXCEPT ![x] = RNew(p)]
DoCopy(x) == b' = [b EXCEPT ![x] = b[3 - x]] /\ r' = [r EXCEPT ![x] = r[3 - x]]
Next == /\ k < MaxOps
        /\ \E x \in Id : DoPush(x) \/ DoWrite(x) \/ DoResize(x) \/ DoCopy(x)
        /\ k' = k + 1 /\ nv' = nv + 1
Spec == Init /\ [][Next]_vars

Refines == \A x \in Id : Abs(r[x]) = b[x]
Bounds  == \A x \in Id : r[x].size <= r[x].p /\ (r[x].size > 0 => r[x].cur - (r[x].size - 1) >= 0)
=============================================================================
