------------------------------ MODULE MCPurity ------------------------------
(* Exhaustive exploration of Purity for a few threads, jobs and calls.     *)
EXTENDS Purity
=============================================================================
