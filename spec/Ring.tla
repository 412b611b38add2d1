-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* Exact arithmetic for amplitudes.  An element <<a,b,c,d>> stands for     *)
(* a + b w + c w^2 + d w^3 with w = exp(i pi/4), so w^4 = -1, w^2 = i and  *)
(* sqrt(2) = w - w^3.  Vectors and matrices carry a common denominator     *)
(* sqrt(2)^k * d.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

R0 == <<0, 0, 0, 0>>
R1 == <<1, 0, 0, 0>>
RI == <<0, 0, 1, 0>>
Sqrt2 == <<0, 1, 0, -1>>
RInt(a) == <<a, 0, 0, 0>>
RAdd(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]>>
RNeg(x) == <<-x[1], -x[2], -x[3], -x[4]>>
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == IF x = R0 \/ y = R0 THEN R0 ELSE
              <<x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
                x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
                x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
                x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1]>>
RConj(x) == <<x[1], -x[4], -x[3], -x[2]>>
RAbs2(x) == RMul(x, RConj(x))
RECURSIVE W(_)
W(n) == IF n = 0 THEN R1 ELSE RMul(W(n - 1), <<0, 1, 0, 0>>)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE Root(_)   \* sqrt(2)^k
Root(k) == IF k = 0 THEN R1 ELSE IF k = 1 THEN Sqrt2 ELSE RMul(RInt(2), Root(k - 2))

\* x is a multiple of sqrt(2), and the quotient
RHalvable(x) == (x[1] - x[3]) % 2 = 0 /\ (x[2] - x[4]) % 2 = 0
RHalve(x) == <<(x[2] - x[4]) \div 2, (x[1] + x[3]) \div 2, (x[2] + x[4]) \div 2, (x[3] - x[1]) \div 2>>

\* ------------------------------------------------------------------ angles
\* an angle theta is given by exp(i theta/2) = e / d with |e| = d; angles 0..7 are multiples of
\* pi/2, the others have rational cosines
Angle(a) ==
    CASE a < 8 -> [e |-> W(a), d |-> 1]
      [] a = 8 -> [e |-> <<3, 0, 4, 0>>, d |-> 5]
      [] a = 9 -> [e |-> <<4, 0, -3, 0>>, d |-> 5]
      [] a = 10 -> [e |-> <<-5, 0, 12, 0>>, d |-> 13]
      [] a = 11 -> [e |-> RMul(<<3, 0, 4, 0>>, W(1)), d |-> 5]
      \* almost no turn, almost half a turn: near-certain measurements
      [] a = 12 -> [e |-> <<112, 0, 15, 0>>, d |-> 113]
      [] a = 13 -> [e |-> <<15, 0, -112, 0>>, d |-> 113]
AllAngles == 0..11
MoreAngles == 0..13

\* ------------------------------------------------- 2x2 matrices of the gates
\* [m: rows, k, d]: the matrix is m / (sqrt(2)^k d)
G(a, b, c, e) == [m |-> <<<<a, b>>, <<c, e>>>>, k |-> 0, d |-> 1]
MatMul2(x, y) ==
    [m |-> TLCEval([i \in 1..2 |-> [j \in 1..2 |->
              RAdd(RMul(x.m[i][1], y.m[1][j]), RMul(x.m[i][2], y.m[2][j]))]]),
     k |-> x.k + y.k, d |-> x.d * y.d]
MX == G(R0, R1, R1, R0)
MY == G(R0, RNeg(RI), RI, R0)
MZ == G(R1, R0, R0, RNeg(R1))
MH == [G(R1, R1, R1, RNeg(R1)) EXCEPT !.k = 1]
MS == G(R1, R0, R0, RI)
MT == G(R1, R0, R0, W(1))
MId == G(R1, R0, R0, R1)
\* twice the cosine and sine of theta/2 (times d)
C2(t) == RAdd(t.e, RConj(t.e))
S2(t) == RMul(RNeg(RI), RSub(t.e, RConj(t.e)))
MRX(t) == [m |-> <<<<C2(t), RMul(RNeg(RI), S2(t))>>, <<RMul(RNeg(RI), S2(t)), C2(t)>>>>, k |-> 2, d |-> t.d]
MRY(t) == [m |-> <<<<C2(t), RNeg(S2(t))>>, <<S2(t), C2(t)>>>>, k |-> 2, d |-> t.d]
MRZ(t) == [m |-> <<<<RConj(t.e), R0>>, <<R0, t.e>>>>, k |-> 0, d |-> t.d]
MRot(b, g, d) == MatMul2(MRZ(d), MatMul2(MRY(g), MRZ(b)))

\* kinds of operations: the base gate, the number of controls
Base(g) == CASE g \in {"CX", "CCX"} -> "X" [] g = "CY" -> "Y" [] g \in {"CZ", "CCZ"} -> "Z"
             [] g \in {"CHadamard", "CCHadamard"} -> "Hadamard" [] g \in {"CRX", "CCRX"} -> "RX" [] g = "CRY" -> "RY"
             [] g = "CRZ" -> "RZ" [] g = "CRotation" -> "Rotation" [] g = "CS" -> "S" [] g = "CT" -> "T"
             [] OTHER -> g
Simple == {"Identity", "X", "Y", "Z", "Hadamard", "S", "T"}
Rots == {"RX", "RY", "RZ"}
Ctl1 == {"CX", "CY", "CZ", "CHadamard", "CRX", "CRY", "CRZ", "CRotation", "CS", "CT"}
Ctl2 == {"CCX", "CCZ", "CCHadamard", "CCRX"}
NumCtl(g) == IF g \in Ctl1 THEN 1 ELSE IF g \in Ctl2 THEN 2 ELSE 0
NumQubits(g) == IF g = "SWAP" THEN 2 ELSE IF g = "CSWAP" THEN 3 ELSE NumCtl(g) + 1
NumParams(g) == IF Base(g) \in Rots THEN 1 ELSE IF Base(g) = "Rotation" THEN 3 ELSE 0
Matrix(g, p) ==
    LET b == Base(g) IN
    CASE b = "Identity" -> MId [] b = "X" -> MX [] b = "Y" -> MY [] b = "Z" -> MZ
      [] b = "Hadamard" -> MH [] b = "S" -> MS [] b = "T" -> MT
      [] b = "RX" -> MRX(Angle(p[1])) [] b = "RY" -> MRY(Angle(p[1])) [] b = "RZ" -> MRZ(Angle(p[1]))
      [] b = "Rotation" -> MRot(Angle(p[1]), Angle(p[2]), Angle(p[3]))

\* ---------------------------------------------------------------- vectors
\* [v: Seq(ring), k, d], 2^n entries; entry j+1 belongs to the basis state j; qubit 0 is the most
\* significant bit of j
BitOf(j, q, n) == (j \div Pow2(n - 1 - q)) % 2
WithBit(j, q, n, b) == j + (b - BitOf(j, q, n)) * Pow2(n - 1 - q)
Basis(n, j) == [v |-> TLCEval([i \in 1..Pow2(n) |-> IF i = j + 1 THEN R1 ELSE R0]), k |-> 0, d |-> 1]
Zero(n) == Basis(n, 0)

RECURSIVE Reduce(_)
Reduce(s) == IF s.k > 0 /\ \A i \in 1..Len(s.v): RHalvable(s.v[i])
             THEN Reduce([v |-> TLCEval([i \in 1..Len(s.v) |-> RHalve(s.v[i])]), k |-> s.k - 1, d |-> s.d])
             ELSE s

ApplyMat(s, n, ctl, t, M) ==
    LET sc == RMul(Root(M.k), RInt(M.d))
        on(j) == \A i \in 1..Len(ctl): BitOf(j, ctl[i], n) = 1
        b(j) == BitOf(j, t, n) + 1 IN
    Reduce([v |-> TLCEval([i \in 1..Len(s.v) |->
                IF on(i - 1) THEN RAdd(RMul(M.m[b(i - 1)][1], s.v[WithBit(i - 1, t, n, 0) + 1]),
                                       RMul(M.m[b(i - 1)][2], s.v[WithBit(i - 1, t, n, 1) + 1]))
                ELSE RMul(sc, s.v[i])]),
            k |-> s.k + M.k, d |-> s.d * M.d])
SwapBits(j, a, b, n) == WithBit(WithBit(j, a, n, BitOf(j, b, n)), b, n, BitOf(j, a, n))
ApplySwap(s, n, ctl, a, b) ==
    [s EXCEPT !.v = TLCEval([i \in 1..Len(s.v) |->
        IF \A c \in 1..Len(ctl): BitOf(i - 1, ctl[c], n) = 1 THEN s.v[SwapBits(i - 1, a, b, n) + 1] ELSE s.v[i]])]

\* the effect of a gate: g a kind, q the positions of its qubits, p its angles
ApplyGate(s, n, g, q, p) ==
    CASE g = "Barrier" -> s
      [] g = "SWAP" -> ApplySwap(s, n, <<>>, q[1], q[2])
      [] g = "CSWAP" -> ApplySwap(s, n, <<q[1]>>, q[2], q[3])
      [] OTHER -> ApplyMat(s, n, SubSeq(q, 1, NumCtl(g)), q[NumCtl(g) + 1], Matrix(g, p))

\* the (unnormalised) projection on qubit q having the value b
Project(s, n, q, b) == [s EXCEPT !.v = TLCEval([i \in 1..Len(s.v) |-> IF BitOf(i - 1, q, n) = b THEN s.v[i] ELSE R0])]
IsZero(s) == \A i \in 1..Len(s.v): s.v[i] = R0
RECURSIVE SumAbs2(_, _)
SumAbs2(v, i) == IF i = 0 THEN R0 ELSE RAdd(SumAbs2(v, i - 1), RAbs2(v[i]))
Norm2(s) == SumAbs2(s.v, Len(s.v))
Unit2(s) == RInt(Pow2(s.k) * s.d * s.d)
Normalised(s) == Norm2(s) = Unit2(s)

\* little-endian: the same amplitudes at the indices with reversed bits
RECURSIVE RevBits(_, _)
RevBits(j, n) == IF n = 0 THEN 0 ELSE (j % 2) * Pow2(n - 1) + RevBits(j \div 2, n - 1)
Reversed(s, n) == [s EXCEPT !.v = TLCEval([i \in 1..Len(s.v) |-> s.v[RevBits(i - 1, n) + 1]])]

\* the algebra is right (checked when the specification is loaded)
SameMat(x, y) == \A i, j \in 1..2: RMul(x.m[i][j], RMul(Root(y.k), RInt(y.d))) = RMul(y.m[i][j], RMul(Root(x.k), RInt(x.d)))
ASSUME RMul(Sqrt2, Sqrt2) = RInt(2) /\ RMul(RI, RI) = RInt(-1) /\ W(8) = R1
ASSUME SameMat(MatMul2(MH, MatMul2(MX, MH)), MZ)
ASSUME SameMat(MatMul2(MT, MT), MS) /\ SameMat(MatMul2(MS, MS), MZ)
ASSUME SameMat(MatMul2(MX, MatMul2(MY, MZ)), G(RI, R0, R0, RI))
ASSUME \A a \in AllAngles: RAbs2(Angle(a).e) = RInt(Angle(a).d * Angle(a).d)
ASSUME \A a \in AllAngles: SameMat(MatMul2(MH, MatMul2(MRZ(Angle(a)), MH)), MRX(Angle(a)))
ASSUME \A a \in AllAngles: SameMat(MatMul2(MS, MatMul2(MRX(Angle(a)), MatMul2(MZ, MS))), MRY(Angle(a)))
=============================================================================
