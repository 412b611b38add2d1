-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Gate matrices for every parameter value.  Entries are Laurent           *)
(* polynomials in z1, z2, z3 with zj = exp(i theta_j / 2), coefficients in *)
(* Z[w] (Ring), common denominator sqrt(2)^k.  A polynomial is a function  *)
(* from its exponents (triples) to non-zero coefficients.                  *)
(***************************************************************************)
EXTENDS Ring, FiniteSets

P0 == [x \in {} |-> R0]
PC(c) == IF c = R0 THEN P0 ELSE [x \in {<<0, 0, 0>>} |-> c]
P1 == PC(R1)
PZ(j, e) == [x \in {[i \in 1..3 |-> IF i = j THEN e ELSE 0]} |-> R1]
Coef(p, x) == IF x \in DOMAIN p THEN p[x] ELSE R0
Trim(p) == [x \in {y \in DOMAIN p: p[y] # R0} |-> p[x]]
PAdd(p, q) == Trim([x \in DOMAIN p \cup DOMAIN q |-> RAdd(Coef(p, x), Coef(q, x))])
PScale(c, p) == Trim([x \in DOMAIN p |-> RMul(c, p[x])])
PNeg(p) == PScale(RInt(-1), p)
AddX(x, y) == [i \in 1..3 |-> x[i] + y[i]]
RECURSIVE SumOver(_, _, _, _)
SumOver(S, p, q, z) == IF S = {} THEN R0
                       ELSE LET s == CHOOSE s \in S: TRUE IN
                            RAdd(IF AddX(s[1], s[2]) = z THEN RMul(p[s[1]], q[s[2]]) ELSE R0, SumOver(S \ {s}, p, q, z))
PMul(p, q) == LET S == (DOMAIN p) \X (DOMAIN q) IN
              Trim([z \in {AddX(s[1], s[2]) : s \in S} |-> SumOver(S, p, q, z)])
NegX(x) == [i \in 1..3 |-> -x[i]]
PConj(p) == [x \in {NegX(y) : y \in DOMAIN p} |-> RConj(p[NegX(x)])]

\* ---------------------------------------------------------------- matrices
\* [m: rows of polynomials, k: denominator sqrt(2)^k]
Dim(M) == Len(M.m)
Mat(n, k, f(_, _)) == [m |-> TLCEval([i \in 1..n |-> [j \in 1..n |-> f(i, j)]]), k |-> k]
RECURSIVE Dot(_, _, _, _, _)
Dot(A, B, i, j, l) == IF l = 0 THEN P0 ELSE PAdd(Dot(A, B, i, j, l - 1), PMul(A.m[i][l], B.m[l][j]))
MMul(A, B) == Mat(Dim(A), A.k + B.k, LAMBDA i, j: Dot(A, B, i, j, Dim(A)))
Dagger(A) == Mat(Dim(A), A.k, LAMBDA i, j: PConj(A.m[j][i]))
MScale(c, A) == Mat(Dim(A), A.k, LAMBDA i, j: PScale(c, A.m[i][j]))
MAdd(A, B) == \* over a common denominator
    LET a == MScale(Root(B.k), A) b == MScale(Root(A.k), B) IN
    Mat(Dim(A), A.k + B.k, LAMBDA i, j: PAdd(a.m[i][j], b.m[i][j]))
MPoly(p, A) == Mat(Dim(A), A.k, LAMBDA i, j: PMul(p, A.m[i][j]))
Same(A, B) == Dim(A) = Dim(B) /\ MScale(Root(B.k), A).m = MScale(Root(A.k), B).m
Eye(n) == Mat(n, 0, LAMBDA i, j: IF i = j THEN P1 ELSE P0)
Lift(M) == Mat(2, M.k, LAMBDA i, j: PC(M.m[i][j]))     \* of the constant matrices of Ring

\* cos and sin of half of the j-th angle, times 2
PCos2(j) == PAdd(PZ(j, 1), PZ(j, -1))
PSin2(j) == PScale(RNeg(RI), PAdd(PZ(j, 1), PNeg(PZ(j, -1))))
\* rotation by the j-th angle around a Pauli matrix: exp(-i theta P / 2) = cos(theta/2) - i sin(theta/2) P
Rot(P, j) == LET A == MAdd(MPoly(PCos2(j), Eye(2)), MPoly(PScale(RNeg(RI), PSin2(j)), Lift(P))) IN [A EXCEPT !.k = @ + 2]
\* the general rotation: RZ of the first, then RY of the second, then RZ of the third parameter
General == MMul(Rot(MZ, 3), MMul(Rot(MY, 2), Rot(MZ, 1)))

SimpleMatrix(g) ==
    CASE g = "Identity" -> Eye(2) [] g = "X" -> Lift(MX) [] g = "Y" -> Lift(MY) [] g = "Z" -> Lift(MZ)
      [] g = "Hadamard" -> Lift(MH) [] g \in {"S", "Phase", "P"} -> Lift(MS) [] g = "T" -> Lift(MT)
      [] g = "RX" -> Rot(MX, 1) [] g = "RY" -> Rot(MY, 1) [] g = "RZ" -> Rot(MZ, 1)
      [] g = "Rotation" -> General

\* controls first, target last: the identity unless all controls are 1
Controlled(c, A) ==
    LET n == Pow2(c) * Dim(A) o == n - Dim(A) IN
    Mat(n, A.k, LAMBDA i, j: IF i > o /\ j > o THEN A.m[i - o][j - o]
                             ELSE IF i = j THEN PC(Root(A.k)) ELSE P0)
\* the permutation that exchanges the last two qubits of n
Exchange(n, c) == LET N == Pow2(n) IN
    Mat(N, 0, LAMBDA i, j: IF j - 1 = (IF \A q \in 0..(c - 1): BitOf(i - 1, q, n) = 1
                                       THEN SwapBits(i - 1, n - 2, n - 1, n) ELSE i - 1) THEN P1 ELSE P0)

PGates1 == {"Identity", "X", "Y", "Z", "Hadamard", "S", "Phase", "P", "T", "RX", "RY", "RZ", "Rotation"}
\* controlled gates of the library, and (the last ones) of the user
PCtl == [CX |-> <<1, "X">>, CNOT |-> <<1, "X">>, CY |-> <<1, "Y">>, CZ |-> <<1, "Z">>,
         CHadamard |-> <<1, "Hadamard">>, CRX |-> <<1, "RX">>, CRY |-> <<1, "RY">>, CRZ |-> <<1, "RZ">>,
         CRotation |-> <<1, "Rotation">>, CCX |-> <<2, "X">>, Toffoli |-> <<2, "X">>,
         CS |-> <<1, "S">>, CT |-> <<1, "T">>, CCZ |-> <<2, "Z">>, CCHadamard |-> <<2, "Hadamard">>,
         CCRX |-> <<2, "RX">>, CCCY |-> <<3, "Y">>, CCRotation |-> <<2, "Rotation">>]
PGates == PGates1 \cup DOMAIN PCtl \cup {"SWAP", "CSWAP", "Fredkin"}
PMatrix(g) ==
    CASE g \in PGates1 -> SimpleMatrix(g)
      [] g \in DOMAIN PCtl -> Controlled(PCtl[g][1], SimpleMatrix(PCtl[g][2]))
      [] g = "SWAP" -> Exchange(2, 0)
      [] g \in {"CSWAP", "Fredkin"} -> Exchange(3, 1)
PBase(g) == IF g \in DOMAIN PCtl THEN PCtl[g][2] ELSE g
PParams(g) == IF PBase(g) \in {"RX", "RY", "RZ"} THEN 1 ELSE IF PBase(g) = "Rotation" THEN 3 ELSE 0
PQubits(g) == CASE g \in PGates1 -> 1 [] g \in DOMAIN PCtl -> PCtl[g][1] + 1 [] g = "SWAP" -> 2 [] g \in {"CSWAP", "Fredkin"} -> 3

\* ------------------------------------------------ facts about all parameter values
Unitary(g) == LET A == PMatrix(g) IN Same(MMul(A, Dagger(A)), Eye(Dim(A)))
\* replacing every angle: theta_i by theta_1 + theta_2 (rotations around one axis add up)
SumAngle(A) == Mat(Dim(A), A.k, LAMBDA i, j: [x \in {<<y[1], y[1], 0>> : y \in DOMAIN A.m[i][j]} |-> A.m[i][j][<<x[1], 0, 0>>]])
AddUp(P) == Same(MMul(Rot(P, 1), Rot(P, 2)), SumAngle(Rot(P, 1)))
\* a full turn is minus the identity: z -> -z
Flip(A) == Mat(Dim(A), A.k, LAMBDA i, j: [x \in DOMAIN A.m[i][j] |-> IF x[1] % 2 = 0 THEN A.m[i][j][x] ELSE RNeg(A.m[i][j][x])])
FullTurn(P) == Same(Flip(Rot(P, 1)), MScale(RInt(-1), Rot(P, 1)))
Hermitian(g) == Same(PMatrix(g), Dagger(PMatrix(g)))
=============================================================================
