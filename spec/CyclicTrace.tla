----------------------------- MODULE CyclicTrace ----------------------------
(* Operations on the library's cyclic buffer, replayed on CyclicBuffer.    *)
(* tr.ops: <<[op, x, y, z]>>; tr.log[k]: what the buffers look like after   *)
(* k - 1 operations.                                                       *)
EXTENDS CyclicBuffer, TLC, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
VARIABLES ti, i, b
vars == <<ti, i, b>>
tr == Traces[ti]

Say(clause, detail) ==
  PrintT("VIOL|" \o tr.id \o "|" \o ToString(i) \o "|" \o clause \o "|" \o detail)
Require(name, holds, detail) == IF holds THEN TRUE ELSE Say(name, detail)

Looks(x) ==
  LET o == tr.log[i][x + 1]
      v == b[x].vals
      d == "buffer " \o ToString(x) \o ", expected " \o ToString(v) IN
  /\ Require("period", o.per = b[x].p, d)
  /\ Require("size", o.size = Len(v), d \o " size " \o ToString(o.size))
  /\ Require("empty", o.empty = (Len(v) = 0), d)
  /\ Require("index", o.at = v /\ o.cat = v, d \o " got " \o ToString(o.at) \o " " \o ToString(o.cat))
  /\ Require("iteration", o.iter = v /\ o.eqv, d \o " got " \o ToString(o.iter))

Init == /\ ti \in 1..Len(Traces)
        /\ i = 0
        /\ b = [x \in 0..2 |-> New(IF x = 0 THEN Traces[ti].p[1] ELSE IF x = 1 THEN Traces[ti].p[2] ELSE 0)]

Apply(o) ==
  CASE o.op = "p" -> [b EXCEPT ![o.x] = Push(@, o.y)]
    [] o.op = "q" -> [b EXCEPT ![o.x] = Push(@, b[o.x].vals[o.y + 1])]
    [] o.op \in {"w", "i"} -> [b EXCEPT ![o.x] = Write(@, o.y, o.z)]
    [] o.op = "r" -> [b EXCEPT ![o.x] = Resize(@, o.y)]
    [] OTHER -> [b EXCEPT ![o.x] = b[o.y]]

Next ==
  \/ /\ tr.end # "ok" /\ i = 0
     /\ Say("the operations return", tr.end)
     /\ i' = -1 /\ UNCHANGED <<ti, b>>
  \/ /\ tr.end = "ok" /\ i = 0
     /\ i' = 1 /\ UNCHANGED <<ti, b>>
  \/ /\ i > 0 /\ i <= Len(tr.ops) + 1
     /\ \A x \in 0..2 : Looks(x)
     /\ i' = i + 1
     /\ b' = IF i <= Len(tr.ops) THEN Apply(tr.ops[i]) ELSE b
     /\ UNCHANGED ti
Spec == Init /\ [][Next]_vars
=============================================================================
