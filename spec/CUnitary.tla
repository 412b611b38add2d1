------------------------------ MODULE CUnitary ------------------------------
(* The matrix of a controlled unitary for control and target indices: entries are 0, 1 or entries of the   *)
(* 2x2 matrix that is applied (10 + 2 row + column).  Unusable indices are rejected.                       *)
EXTENDS Ring, FiniteSets, Json, IOUtils
CONSTANTS MaxN, Deep
\* n = 0 stands for "not given": as many qubits as the largest index requires
Largest(ctl, t) == CHOOSE m \in {t} \cup {ctl[i] : i \in 1..Len(ctl)}: \A x \in {t} \cup {ctl[i] : i \in 1..Len(ctl)}: x <= m
Size(n, ctl, t) == IF n = 0 THEN Largest(ctl, t) + 1 ELSE n
Usable(n, ctl, t) ==
    /\ \A i \in 1..Len(ctl): ctl[i] # t /\ ctl[i] >= 0 /\ ctl[i] < Size(n, ctl, t)
    /\ \A i, j \in 1..Len(ctl): i # j => ctl[i] # ctl[j]
    /\ t >= 0 /\ t < Size(n, ctl, t)
Entry(i, j, n, ctl, t) ==
    IF \E k \in 1..Len(ctl): BitOf(i, ctl[k], n) = 0 THEN IF i = j THEN 1 ELSE 0
    ELSE IF WithBit(i, t, n, 0) # WithBit(j, t, n, 0) THEN 0
    ELSE 10 + 2 * BitOf(i, t, n) + BitOf(j, t, n)
Table(n, ctl, t) == [i \in 1..Pow2(n) |-> [j \in 1..Pow2(n) |-> Entry(i - 1, j - 1, n, ctl, t)]]

\* more: further targets (a unitary on several targets is not supported, and rejected)
VARIABLES n, ctl, t, more
cuvars == <<n, ctl, t, more>>
\* every placement within the bounds is one initial state
Indices == -1..MaxN
Controls == {<<a>> : a \in Indices} \cup {<<a, b>> : a, b \in Indices}
            \cup (IF Deep THEN {<<a, b, c>> : a, b, c \in 0..(MaxN - 1)} ELSE {<<0, 1, 2>>, <<3, 0, 1>>, <<2, 3, 1>>})
Init == n \in {k \in 0..MaxN: k # 1} /\ ctl \in Controls /\ t \in Indices
        /\ more \in {<<>>} \cup (IF Len(ctl) = 1 THEN {<<x>> : x \in 0..2} ELSE {})
Spec == Init /\ [][UNCHANGED cuvars]_cuvars
Ok == Usable(n, ctl, t) /\ more = <<>>
Case == PrintT("CASE " \o ToJson([n |-> n, ctl |-> ctl, t |-> t, more |-> more, ok |-> Ok,
                                  m |-> IF Ok THEN Table(Size(n, ctl, t), ctl, t) ELSE <<>>]))
\* on every column the entries are those of a permutation with the 2x2 matrix inserted: as many columns
\* are touched as there are states with all controls 1
Touched == Ok =>
    LET N == Size(n, ctl, t) IN
    Cardinality({i \in 0..(Pow2(N) - 1): Entry(i, i, N, ctl, t) >= 10}) = Pow2(N - Len(ctl))
=============================================================================
