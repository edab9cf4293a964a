---------------------------- MODULE PurityTrace -----------------------------
(***************************************************************************)
(* Recorded sessions of the real library against Purity's property         *)
(* Functional: the first event of every job is its result in a process of  *)
(* its own; memo keeps it and every later event has to agree, in every     *)
(* part that was requested (the trajectory when it was stored, the lines   *)
(* of the stream when one was set, status and counters always).            *)
(* Sessions whose memory is watched list the accesses to memory shared by  *)
(* calls in different threads: the design with the property has none       *)
(* (MCPurity_own; MCPurity_static is one that has).                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
VARIABLES ti, k, memo
vars == <<ti, k, memo>>
tr == Traces[ti]
Ev == tr.ev
Say(clause, detail) ==
  PrintT("VIOL|" \o tr.id \o "|" \o ToString(k) \o "|" \o clause \o "|" \o detail)
Same(a, b) == a = "" \/ b = "" \/ a = b
Merge(a, b) == [end |-> a.end, sum |-> a.sum, traj |-> IF a.traj = "" THEN b.traj ELSE a.traj,
                file |-> IF a.file = "" THEN b.file ELSE a.file]
Show(e) == e.job \o ":" \o e.var
Init == ti \in 1..Len(Traces) /\ k = 1 /\ memo = <<>>
Judge(e, m) ==
  /\ IF e.end = m.end THEN TRUE ELSE Say("same outcome of the same call", Show(e) \o " " \o e.end)
  /\ IF e.sum = m.sum THEN TRUE ELSE Say("same status, counters and values of the same call", Show(e))
  /\ IF Same(e.traj, m.traj) THEN TRUE ELSE Say("same trajectory of the same call", Show(e))
  /\ IF Same(e.file, m.file) THEN TRUE ELSE Say("same lines of the same call", Show(e))
Next ==
  \/ /\ k = 1 /\ tr.end # "ok" /\ Say("the session ends", tr.end)
     /\ k' = 0 /\ UNCHANGED <<ti, memo>>
  \/ /\ k = 1 /\ tr.end = "ok" /\ tr.races # <<>>
     /\ Say("calls at the same time share no memory that one of them writes", tr.races[1])
     /\ k' = 0 /\ UNCHANGED <<ti, memo>>
  \/ /\ tr.end = "ok" /\ k > 0 /\ k <= Len(Ev)
     /\ LET e == Ev[k]
            r == [end |-> e.end, sum |-> e.sum, traj |-> e.traj, file |-> e.file] IN
        IF e.job \in DOMAIN memo
        THEN /\ Judge(e, memo[e.job])
             /\ memo' = [memo EXCEPT ![e.job] = Merge(@, r)]
        ELSE memo' = (e.job :> r) @@ memo
     /\ k' = k + 1 /\ UNCHANGED ti
Spec == Init /\ [][Next]_vars
=============================================================================
