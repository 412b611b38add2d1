------------------------------- MODULE WideMC -------------------------------
(* Random programs on many qubits: as SimMC (RunsMC), with sparse states. *)
EXTENDS RunsMC, Wide
CONSTANT MaxMixing
RECURSIVE Mixed(_)
Mixed(p) == IF p = <<>> THEN 0 ELSE (IF Head(p).g \in Mixing THEN 1 ELSE 0) + Mixed(Tail(p))
WWidths(g, k) == IF g \in Mixing /\ Mixed(prog) >= MaxMixing THEN {}
                 ELSE IF g = "Barrier" THEN {1, k} ELSE IF g = "Measurement" THEN {w \in {1, 2, 3, 5, 9, k}: w <= k}
                 ELSE {NumQubits(g)} \cap (1..k)
\* most operations share the first bits
Few == IF NumBits < 5 THEN NumBits ELSE 5
WBitSets(g, w) == IF g # "Measurement" \/ w > NumBits \/ RandomElement(1..6) = 1 THEN {<<>>}
                 ELSE IF RandomElement(1..4) = 1 THEN {TLCEval([i \in 1..w |-> RandomElement(0..(NumBits - 1))])}
                 ELSE WPlaces(IF w <= 5 /\ RandomElement(1..2) = 1 THEN Few ELSE NumBits, w)
WCondsFor(g) == IF ~Conds \/ RandomElement(1..3) > 1 THEN {<<>>}
                ELSE {WShuffle(0..((IF RandomElement(1..3) = 1 THEN NumBits ELSE Few) - 1), RandomElement(1..3))}
\* programs begin with the preparation of a state in which most operations have an effect
WOp(g, q, p) == [g |-> g, q |-> <<q>>, p |-> p, c |-> <<>>, b |-> <<>>]
RECURSIVE WPrepare(_, _)
WPrepare(k, q) == IF q = k THEN <<>>
                  ELSE LET x == RandomElement(1..12) IN
                       (CASE x < 7 -> <<WOp("X", q, <<>>)>> [] x = 7 -> <<WOp("Hadamard", q, <<>>)>>
                          [] x = 8 -> <<WOp("RY", q, <<RandomElement({1, 7})>>)>> [] OTHER -> <<>>) \o WPrepare(k, q + 1)
WPrepared(k) == LET p == TLCEval(WPrepare(k, 0)) IN IF Mixed(p) <= 3 THEN p ELSE WShuffle({p[i]: i \in 1..Len(p)} \ {p[i]: i \in {i \in 1..Len(p): p[i].g \in Mixing}}, 99)
\* (some programs begin with hundreds of operations)
Calm == {"X", "CX", "CCX", "SWAP", "S", "T", "CZ", "Y"} \cap Kinds
RECURSIVE WLong(_, _)
WLong(k, m) == IF m = 0 THEN <<>>
               ELSE LET g == RandomElement(Calm) IN
                    <<[g |-> g, q |-> WShuffle(0..(k - 1), NumQubits(g)), p |-> <<>>, c |-> <<>>, b |-> <<>>]>> \o WLong(k, m - 1)
WStart(k) == WPrepared(k) \o (IF RandomElement(1..25) = 1 THEN TLCEval(WLong(k, RandomElement(40..300))) ELSE <<>>)
WideInit == /\ \E z \in 1..400: \E k \in Pick(IF MaxQubits > 9 /\ RandomElement(1..20) = 1 THEN 13..17 ELSE MinQubits..MaxQubits): \E p \in {WStart(k)}:
                   SimInit(k, p, TLCEval([i \in 1..NumBits |-> IF Preset THEN RandomElement(0..2) ELSE 2]))
            /\ hist = <<>> /\ ops0 = <<>> /\ bits0 = bits /\ phase = "build"
\* one run
WideGo == phase = "build" /\ Go /\ UNCHANGED <<hist, ops0, bits0, phase>>
WideSpec == WideInit /\ [][RNext]_rvars
WideOnce == WideInit /\ [][RBuild \/ WideGo]_rvars
WEmitGo == pc' = 1 => PrintT("TEST " \o ToJson(<<[n |-> n, bits |-> bits, ops |-> prog]>>))
=============================================================================
