------------------------------ MODULE StateSlot ------------------------------
(* The state a circuit holds.  An array given by the user is described by what decides its fate: what kind *)
(* of array it is (vec, mat, or other: neither), the number of qubits its size stands for, the base array  *)
(* it is a multiple of (vectors of norm 1, matrices of trace 1) and the factor:                            *)
(*   1: one   2: two   3: a half   4: minus one   5: i   6: within rounding of one   7: 1.001   8: zero     *)
(*   9: not a number                                                                                      *)
EXTENDS Integers, Sequences

VARIABLES nq,      \* number of qubits of the circuit
          slot,    \* [kind: "none"/"vec"/"mat", base, factor, n]
          res
ssvars == <<nq, slot, res>>

Nothing == [kind |-> "none", base |-> 0, factor |-> 0, n |-> 0]
SSInit == nq = 0 /\ slot = Nothing /\ res = "ok"
Ok == res' = "ok"
Err == res' = "err"

\* the factor that is left after dividing a vector by its norm or a matrix by its trace
\* (0: there is none, the result is no state)
Left(kind, f) ==
    CASE f \in {8, 9} -> 0
      [] kind = "vec" -> (CASE f \in {1, 2, 3, 6, 7} -> 1 [] f = 4 -> 4 [] f = 5 -> 5)
      [] kind = "mat" -> 1
\* whether the norm of a vector or the trace of a matrix is 1
Unit(kind, f) == IF kind = "vec" THEN f \in {1, 4, 5, 6} ELSE f \in {1, 6}
Fits(a) == a.kind \in {"vec", "mat"} /\ a.n = nq

Set(a, force, normalize) ==
    /\ UNCHANGED nq
    /\ LET f == IF normalize THEN Left(a.kind, a.factor) ELSE a.factor IN
       IF (slot.kind # "none" /\ ~force) \/ ~Fits(a) THEN UNCHANGED slot /\ Err
       ELSE IF f = 0 \/ ~Unit(a.kind, f) THEN UNCHANGED slot /\ Err
       ELSE slot' = [kind |-> a.kind, base |-> a.base, factor |-> (IF f = 6 THEN 1 ELSE f), n |-> nq] /\ Ok
AddQubits(k) == nq' = nq + k /\ UNCHANGED slot /\ Ok
\* simulating puts the circuit (without operations) into the base vector 0
Simulate == UNCHANGED nq /\ slot' = [kind |-> "vec", base |-> 0, factor |-> 1, n |-> nq] /\ Ok
\* a simulation that is rejected on the way, because of an operation it cannot carry out (the driver removes it)
Reject == UNCHANGED <<nq, slot>> /\ Err

Apply(e) ==
    CASE e.op = "set" -> Set(e.a, e.force, e.normalize)
      [] e.op = "add" -> AddQubits(e.k)
      [] e.op = "simulate" -> Simulate
      [] e.op = "reject" -> Reject

\* What reading the state and the density matrix gives (the arrays given to the circuit were the caller's, who
\* may have written to them since)
Obs == [res |-> res, n |-> nq,
        state |-> CASE slot.kind = "none" -> "none"
                    [] slot.kind = "vec" -> "it"
                    [] slot.kind = "mat" -> "mixed",
        density |-> IF slot.kind = "none" THEN "none" ELSE "it",
        given |-> "unchanged"]

HoldsState == slot.kind # "none" => Unit(slot.kind, slot.factor)
Kept == [][res' = "err" => slot' = slot]_ssvars
=============================================================================
