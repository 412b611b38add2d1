---------------------------- MODULE WideUnitaryMC ----------------------------
(* UnitaryMC with sparse columns, for more qubits. *)
EXTENDS UnitaryMC, Wide
=============================================================================
