------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* C21: sessions in which several threads make library calls.  A call of   *)
(* job j computes in Steps(j) stretches, between which the library is in   *)
(* the user's functor and other threads may run.  Where the working memory *)
(* of a call lives decides whether its result is a function of j alone:    *)
(*   "own"     every call has its own memory, initialised by the call      *)
(*   "static"  all calls share one                                         *)
(*   "thread"  the calls of a thread share one, initialised once           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Threads, Jobs, MaxCalls, Memory

VARIABLES mem,    \* memory that outlives a call: by owner
          at,     \* [thread -> [job, k] being computed, k = 0: none]
          log     \* <<job, result>> of the finished calls, in order
pvars == <<mem, at, log>>

All == 99   \* stands for every thread
Steps(j) == 1 + (j % 2)
Owner(th) == IF Memory = "static" THEN All ELSE th
Work(v, j, k) == (3 * v + 5 * j + k) % 97          \* any function of memory and job
Pure(j) == IF Steps(j) = 1 THEN Work(0, j, 1) ELSE Work(Work(0, j, 1), j, 2)

Init == /\ mem = [o \in Threads \cup {All} |-> 0]
        /\ at = [th \in Threads |-> [job |-> 0, k |-> 0, n |-> 0]]
        /\ log = <<>>
Begin(th, j) ==
  /\ at[th].k = 0 /\ at[th].n < MaxCalls
  /\ at' = [at EXCEPT ![th] = [job |-> j, k |-> 1, n |-> @.n + 1]]
  /\ mem' = IF Memory = "thread" THEN mem ELSE [mem EXCEPT ![Owner(th)] = 0]
  /\ UNCHANGED log
Step(th) ==
  LET a == at[th]
      v == Work(mem[Owner(th)], a.job, a.k) IN
  /\ a.k > 0
  /\ mem' = [mem EXCEPT ![Owner(th)] = v]
  /\ IF a.k = Steps(a.job)
     THEN at' = [at EXCEPT ![th].k = 0] /\ log' = Append(log, <<a.job, v>>)
     ELSE at' = [at EXCEPT ![th].k = @ + 1] /\ UNCHANGED log
Next == \E th \in Threads : Step(th) \/ \E j \in Jobs : Begin(th, j)
Spec == Init /\ [][Next]_pvars

Functional == \A a, b \in 1..Len(log) : log[a][1] = log[b][1] => log[a][2] = log[b][2]
OfTheJobAlone == \A a \in 1..Len(log) : log[a][2] = Pure(log[a][1])
=============================================================================
