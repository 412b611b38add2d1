------------------------------ MODULE Density ------------------------------
(* Design check: evolving the density matrix gate by gate (each gate on the columns, its conjugate on *)
(* the rows) always equals the outer product of the state vector.                                     *)
EXTENDS SimMC
VARIABLE rho   \* on 2n qubits: the first n are the row index, the last n the column index
dvars == <<simvars, rho>>
ConjMat(M) == [M EXCEPT !.m = <<<<RConj(M.m[1][1]), RConj(M.m[1][2])>>, <<RConj(M.m[2][1]), RConj(M.m[2][2])>>>>]
Shift(q) == [i \in 1..Len(q) |-> q[i] + n]
\* the gate on the row index, its conjugate on the column index
Evolve(r, o) ==
    IF o.g = "Barrier" THEN r
    ELSE LET a == ApplyGate(r, 2 * n, o.g, o.q, o.p) IN
         IF o.g \in {"SWAP", "CSWAP"} THEN ApplyGate(a, 2 * n, o.g, Shift(o.q), o.p)
         ELSE LET q == Shift(o.q) IN
              ApplyMat(a, 2 * n, SubSeq(q, 1, NumCtl(o.g)), q[NumCtl(o.g) + 1], ConjMat(Matrix(o.g, o.p)))
DNext == \/ Add /\ UNCHANGED rho
         \/ Go /\ rho' = Zero(2 * n)
         \/ Gate /\ rho' = Evolve(rho, Op)
         \/ Skip /\ UNCHANGED rho
         \/ Done /\ UNCHANGED rho
DInit == Init /\ rho = Zero(2 * n)
DSpec == DInit /\ [][DNext]_dvars
\* rho = |vec><vec|, exactly
OuterProduct ==
    LET sz == Pow2(n) IN
    \A i, j \in 1..sz:
        RMul(rho.v[(i - 1) * sz + j], Unit2(vec)) =
        RMul(RMul(vec.v[i], RConj(vec.v[j])), RMul(Root(rho.k), RInt(rho.d)))
=============================================================================
