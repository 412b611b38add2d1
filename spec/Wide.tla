-------------------------------- MODULE Wide --------------------------------
(* Sparse state vectors, for programs on many qubits: [v: sequence of <<index, amplitude>> in order of *)
(* the indices, without zeros, k, d].  The operators replace those of Ring and SimMC by configuration. *)
EXTENDS Ring, FiniteSets, SequencesExt

WEntries(f) == LET S == {i \in DOMAIN f: f[i] # R0} IN
               LET o == SetToSortSeq(S, <) IN TLCEval([i \in 1..Len(o) |-> <<o[i], f[o[i]]>>])
WFun(v) == [i \in {v[j][1]: j \in 1..Len(v)} |-> LET j == CHOOSE j \in 1..Len(v): v[j][1] = i IN v[j][2]]
WBasis(n, j) == [v |-> <<<<j, R1>>>>, k |-> 0, d |-> 1]
WZero(n) == WBasis(n, 0)
RECURSIVE WReduce(_)
WReduce(s) == IF s.k > 0 /\ \A i \in 1..Len(s.v): RHalvable(s.v[i][2])
              THEN WReduce([v |-> TLCEval([i \in 1..Len(s.v) |-> <<s.v[i][1], RHalve(s.v[i][2])>>]), k |-> s.k - 1, d |-> s.d])
              ELSE s
WApplyMat(s, n, ctl, t, M) ==
    LET sc == RMul(Root(M.k), RInt(M.d))
        f == TLCEval(WFun(s.v))
        old == DOMAIN f
        at(i) == IF i \in old THEN f[i] ELSE R0
        on(j) == \A i \in 1..Len(ctl): BitOf(j, ctl[i], n) = 1
        touched == old \cup {WithBit(i, t, n, 1 - BitOf(i, t, n)): i \in {i \in old: on(i)}}
        new == [i \in touched |->
                  IF on(i) THEN RAdd(RMul(M.m[BitOf(i, t, n) + 1][1], at(WithBit(i, t, n, 0))),
                                     RMul(M.m[BitOf(i, t, n) + 1][2], at(WithBit(i, t, n, 1))))
                  ELSE RMul(sc, at(i))] IN
    WReduce([v |-> WEntries(TLCEval(new)), k |-> s.k + M.k, d |-> s.d * M.d])
WSorted(v) == LET f == WFun(v) IN WEntries(TLCEval(f))
WApplySwap(s, n, ctl, a, b) ==
    [s EXCEPT !.v = WSorted(TLCEval([i \in 1..Len(s.v) |->
        IF \A c \in 1..Len(ctl): BitOf(s.v[i][1], ctl[c], n) = 1
        THEN <<WithBit(WithBit(s.v[i][1], a, n, BitOf(s.v[i][1], b, n)), b, n, BitOf(s.v[i][1], a, n)), s.v[i][2]>> ELSE s.v[i]]))]
WProject(s, n, q, b) == [s EXCEPT !.v = SelectSeq(s.v, LAMBDA x: BitOf(x[1], q, n) = b)]
WIsZero(s) == s.v = <<>>
RECURSIVE WSum(_, _)
WSum(v, i) == IF i = 0 THEN R0 ELSE RAdd(WSum(v, i - 1), RAbs2(v[i][2]))
WNorm2(s) == WSum(s.v, Len(s.v))
WReversed(s, n) == [s EXCEPT !.v = TLCEval([i \in 1..Len(s.v) |-> <<RevBits(s.v[i][1], n), s.v[i][2]>>])]
\* the outer product has the rows and columns of the entries
WRho(s) == [i \in 1..Len(s.v) |-> [j \in 1..Len(s.v) |-> RMul(s.v[i][2], RConj(s.v[j][2]))]]

\* ------------------------------------------------------------ random programs
RECURSIVE WShuffle(_, _)
WShuffle(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o WShuffle(S \ {x}, k - 1)
WPlaces(k, w) == {WShuffle(0..(k - 1), w)}
\* gates that may double the number of entries
Mixing == {"Hadamard", "RX", "RY", "Rotation", "CHadamard", "CRX", "CRY", "CRotation", "CCHadamard", "CCRX"}
=============================================================================
