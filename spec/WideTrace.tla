------------------------------ MODULE WideTrace ------------------------------
(* SimTrace with sparse states. *)
EXTENDS SimTrace, Wide
=============================================================================
