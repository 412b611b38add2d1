--------------------------------- MODULE Ops ---------------------------------
(* Operations: their qubits, controls and targets, parameters, conditions, measured bits and equality.   *)
(* Qubits, bits and values are numbers; <<0>> is "none given".  Kinds are numbers: those of the library  *)
(* and those that are defined along the way (also derived from others).                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES kinds,   \* [name, n: qubits (0: any number), nc: controls (0: not controlled), np: parameters]
          ops,     \* [g, q, ctl, tgt, p, b, c]
          bits,    \* values of bits; 2: unset
          res, val
ovars == <<kinds, ops, bits, res, val>>

K(name, n, nc, np) == [name |-> name, n |-> n, nc |-> nc, np |-> np]
Lib == <<K("Identity", 1, 0, 0), K("X", 1, 0, 0), K("Y", 1, 0, 0), K("Z", 1, 0, 0), K("Hadamard", 1, 0, 0),
         K("S", 1, 0, 0), K("T", 1, 0, 0), K("RX", 1, 0, 1), K("RY", 1, 0, 1), K("RZ", 1, 0, 1),
         K("Rotation", 1, 0, 3), K("SWAP", 2, 0, 0), K("CSWAP", 3, 0, 0), K("CCX", 3, 0, 0),
         K("CX", 2, 1, 0), K("CY", 2, 1, 0), K("CZ", 2, 1, 0), K("CHadamard", 2, 1, 0),
         K("CRX", 2, 1, 1), K("CRY", 2, 1, 1), K("CRZ", 2, 1, 1), K("CRotation", 2, 1, 3),
         K("Barrier", 0, 0, 0), K("Measurement", 0, 0, 0)>>
MEASUREMENT == 24
None == <<0>>
OpsInit(bs) == kinds = Lib /\ ops = <<>> /\ bits = bs /\ res = "ok" /\ val = <<>>
Result(r, v) == res' = r /\ val' = v
Same == UNCHANGED <<kinds, ops, bits>>
Rejected == Same /\ Result("err", <<>>)
Given(s) == s # None
Controlled(g) == kinds[g].nc > 0
Front(s, k) == SubSeq(s, 1, k)
Back(s, k) == SubSeq(s, k + 1, Len(s))

\* ---------------------------------------------------------------- new operations
RightQ(g, q) == IF kinds[g].n = 0 THEN TRUE ELSE Len(q) = kinds[g].n
\* of kind g with qubits q (which count when given), or control and target; within a context qubits are needed
Make(g, q, ctl, tgt, p, ctx) ==
    LET all == IF Given(q) THEN q ELSE IF Given(ctl) /\ Given(tgt) THEN ctl \o tgt ELSE None
        split == ~Given(q) /\ Given(ctl) /\ Given(tgt)
        nc == kinds[g].nc IN
    IF Len(p) # kinds[g].np \/ (Given(all) /\ ~RightQ(g, all)) \/ (split /\ Len(ctl) # nc) \/ (ctx /\ ~Given(all))
    THEN Rejected
    ELSE /\ ops' = Append(ops, [g |-> g, q |-> all, p |-> p, b |-> None, c |-> <<>>,
                                ctl |-> IF ~Controlled(g) THEN None ELSE IF Given(all) THEN Front(all, nc) ELSE ctl,
                                tgt |-> IF ~Controlled(g) THEN None ELSE IF Given(all) THEN Back(all, nc) ELSE tgt])
         /\ UNCHANGED <<kinds, bits>> /\ Result("ok", <<>>)
\* again, on the same qubits or the ones given
Again(o, q, ctl, tgt, ctx) ==
    LET x == ops[o] IN
    IF Controlled(x.g)
    THEN Make(x.g, None, IF Given(ctl) THEN ctl ELSE x.ctl, IF Given(tgt) THEN tgt ELSE x.tgt, x.p, ctx)
    ELSE Make(x.g, IF Given(q) THEN q ELSE x.q, None, None, x.p, ctx)

\* ------------------------------------------------------------------- assignments
SetQubits(o, q) ==
    LET x == ops[o] nc == kinds[x.g].nc IN
    IF ~RightQ(x.g, q) THEN Rejected
    ELSE ops' = [ops EXCEPT ![o].q = q,
                            ![o].ctl = IF Controlled(x.g) THEN Front(q, nc) ELSE None,
                            ![o].tgt = IF Controlled(x.g) THEN Back(q, nc) ELSE None]
         /\ UNCHANGED <<kinds, bits>> /\ Result("ok", <<>>)
SetParam(o, j, v) == ops' = [ops EXCEPT ![o].p[j] = v] /\ UNCHANGED <<kinds, bits>> /\ Result("ok", <<>>)
Cond(o, bs) == ops' = [ops EXCEPT ![o].c = bs] /\ UNCHANGED <<kinds, bits>> /\ Result("ok", <<>>)
Into(o, bs) == IF ~Given(ops[o].q) \/ Len(bs) < Len(ops[o].q) THEN Rejected
               ELSE ops' = [ops EXCEPT ![o].b = Front(bs, Len(ops[o].q))] /\ UNCHANGED <<kinds, bits>> /\ Result("ok", <<>>)
SetBit(i, v) == bits' = [bits EXCEPT ![i] = v] /\ UNCHANGED <<kinds, ops>> /\ Result("ok", <<>>)

\* ------------------------------------------------------------------------- kinds
\* a new kind: plain (nc = 0) or controlled, perhaps derived from another with other numbers
Define(n, nc, np, base) == kinds' = Append(kinds, K("U", n, nc, np)) /\ UNCHANGED <<ops, bits>> /\ Result("ok", <<>>)
\* asking a kind for its numbers; -1: any number
Ask(g) == Same /\ Result("ok", <<IF kinds[g].n = 0 THEN -1 ELSE kinds[g].n, kinds[g].nc, kinds[g].np>>)

Apply(e) ==
    CASE e.op = "make" -> Make(e.g, e.q, e.ctl, e.tgt, e.p, e.ctx)
      [] e.op = "again" -> Again(e.o, e.q, e.ctl, e.tgt, e.ctx)
      [] e.op = "setq" -> SetQubits(e.o, e.q)
      [] e.op = "setparam" -> SetParam(e.o, e.j, e.v)
      [] e.op = "cond" -> Cond(e.o, e.bs)
      [] e.op = "into" -> Into(e.o, e.bs)
      [] e.op = "setbit" -> SetBit(e.i, e.v)
      [] e.op = "define" -> Define(e.n, e.nc, e.np, e.base)
      [] e.op = "ask" -> Ask(e.g)

Equal(a, b) == a.g = b.g /\ a.q = b.q /\ a.p = b.p
Blocked(x) == \E i \in 1..Len(x.c): bits[x.c[i]] = 0
NumQ(x) == IF kinds[x.g].n > 0 THEN kinds[x.g].n ELSE IF Given(x.q) THEN Len(x.q) ELSE 0
Obs == [res |-> res, val |-> val,
        ops |-> [i \in 1..Len(ops) |->
            [g |-> ops[i].g, q |-> ops[i].q, ctl |-> ops[i].ctl, tgt |-> ops[i].tgt, p |-> ops[i].p,
             b |-> ops[i].b, n |-> NumQ(ops[i]), blocked |-> Blocked(ops[i]),
             eq |-> [j \in 1..Len(ops) |-> Equal(ops[i], ops[j])]]]]

\* -------------------------------------------------------------------- properties
RightNumber == \A i \in 1..Len(ops): Given(ops[i].q) => RightQ(ops[i].g, ops[i].q)
ControlThenTarget == \A i \in 1..Len(ops): LET x == ops[i] IN
    Controlled(x.g) /\ Given(x.q) => x.q = x.ctl \o x.tgt /\ Len(x.ctl) = kinds[x.g].nc
\* a call changes one operation at most, and re-applying changes none
OneAtATime == [][Cardinality({i \in 1..Len(ops): ops'[i] # ops[i]}) <= IF Len(ops') > Len(ops) THEN 0 ELSE 1]_ovars
KindsStay == [][\A i \in 1..Len(ops): ops'[i].g = ops[i].g]_ovars
=============================================================================
