-------------------------------- MODULE Qasm --------------------------------
(* Circuits written as OpenQASM 2.0.  An operation is [g, p, q, b, c] as in Qir.tla; a circuit has registers  *)
(* [l: label (as text), n: size].  A text is [qregs, cregs, defs, stmts]; statements are [g, p, q] with       *)
(* qubits [r, i]: register name and index.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES circs,   \* Seq of [par: parametric, qregs, cregs, prog]
          val,     \* the text that was written by the last call
          res
qvars == <<circs, val, res>>
QInit == circs = <<>> /\ val = <<>> /\ res = "ok"
NoBits == <<-1>>

Standard(g) == CASE g = "Identity" -> "id" [] g = "X" -> "x" [] g = "Y" -> "y" [] g = "Z" -> "z" [] g = "Hadamard" -> "h"
            [] g = "S" -> "s" [] g = "T" -> "t" [] g = "RX" -> "rx" [] g = "RY" -> "ry" [] g = "RZ" -> "rz"
            [] g = "CX" -> "cx" [] g = "CY" -> "cy" [] g = "CZ" -> "cz" [] g = "CHadamard" -> "ch"
            [] g = "CRX" -> "crx" [] g = "CRY" -> "cry" [] g = "CRZ" -> "crz" [] g = "CCX" -> "ccx"
            [] OTHER -> "?"
\* not part of the standard library
Other(g) == CASE g = "Rotation" -> "rot" [] g = "CRotation" -> "crot" [] g = "SWAP" -> "swap" [] g = "CSWAP" -> "cswap"
            \* made from circuits: the class's name
            [] g = "Mine" -> "mine" [] g = "AbC" -> "abc" [] g = "Two" -> "two" [] g = "Anon" -> "customoperation" [] OTHER -> "?"
Name(g) == IF Standard(g) # "?" THEN Standard(g) ELSE Other(g)
Kinds == {"Identity", "X", "Y", "Z", "Hadamard", "S", "T", "RX", "RY", "RZ", "CX", "CY", "CZ", "CHadamard", "CRX", "CRY", "CRZ", "CCX",
          "Rotation", "CRotation", "SWAP", "CSWAP", "Mine", "AbC", "Two", "Anon"}
NeedQ(g) == CASE g \in {"CX", "CY", "CZ", "CHadamard", "SWAP", "CRX", "CRY", "CRZ", "CRotation", "AbC", "Two"} -> 2
              [] g \in {"CSWAP", "CCX", "CCZ"} -> 3 [] OTHER -> 1
NeedP(g) == CASE g \in {"RX", "RY", "RZ", "CRX", "CRY", "CRZ"} -> 1 [] g = "Two" -> 2 [] g \in {"Rotation", "CRotation"} -> 3 [] OTHER -> 0

\* ------------------------------------------------------------------ definitions
C1(n, a) == [g |-> n, p |-> <<>>, q |-> a]
R1(n, a, x) == [g |-> n, p |-> <<x>>, q |-> a]
Defined == {"Rotation", "SWAP", "CSWAP"}
Definition(g) ==
    CASE g = "SWAP" -> [name |-> "swap", params |-> <<>>, body |-> <<C1("cx", <<2, 1>>), C1("cx", <<1, 2>>), C1("cx", <<2, 1>>)>>]
      [] g = "CSWAP" -> [name |-> "cswap", params |-> <<>>, body |-> <<C1("cx", <<3, 2>>), C1("ccx", <<1, 2, 3>>), C1("cx", <<3, 2>>)>>]
      [] g = "Rotation" -> [name |-> "rot", params |-> <<1, 2, 3>>, body |-> <<R1("rz", <<1>>, 1), R1("ry", <<1>>, 2), R1("rz", <<1>>, 3)>>]
\* the definitions do what the gates do: on basis states
RECURSIVE Run(_, _)
Flip(s, c) == [s EXCEPT ![c.q[Len(c.q)]] = IF \A i \in 1..(Len(c.q) - 1): s[c.q[i]] = 1 THEN 1 - @ ELSE @]
Run(body, s) == IF body = <<>> THEN s ELSE Run(Tail(body), Flip(s, Head(body)))
ASSUME \A s \in [1..2 -> 0..1]: Run(Definition("SWAP").body, s) = [i \in 1..2 |-> s[3 - i]]
ASSUME \A s \in [1..3 -> 0..1]: Run(Definition("CSWAP").body, s) = IF s[1] = 1 THEN <<1, s[3], s[2]>> ELSE s

\* ---------------------------------------------------------------------- writing
Size(regs) == FoldLeft(LAMBDA a, r: a + r.n, 0, regs)
RegName(regs, k, kind, labels) == IF labels THEN regs[k].l ELSE IF Len(regs) = 1 THEN kind ELSE kind \o ToString(k - 1)
\* the register and the index of the qubit at position i
RECURSIVE Place(_, _, _)
Place(regs, k, i) == IF i < regs[k].n THEN <<k, i>> ELSE Place(regs, k + 1, i - regs[k].n)
Qubit(regs, i, labels) == LET w == Place(regs, 1, i) IN [r |-> RegName(regs, w[1], "q", labels), i |-> w[2]]
Stmt(o, regs, labels) == [g |-> Name(o.g), p |-> o.p, q |-> [i \in 1..Len(o.q) |-> Qubit(regs, o.q[i], labels)]]
RECURSIVE Firsts(_, _)
Firsts(s, seen) == IF s = <<>> THEN <<>>
                   ELSE IF Head(s).g \in Defined \ seen THEN <<Definition(Head(s).g)>> \o Firsts(Tail(s), seen \cup {Head(s).g})
                   ELSE Firsts(Tail(s), seen)
Writable(o) == o.g \in Kinds /\ o.c = <<>>
CanWrite(x, version) == ~x.par /\ version = "2.0" /\ \A i \in 1..Len(x.prog): Writable(x.prog[i])
Regs(regs, kind, labels) == [k \in 1..Len(regs) |-> [r |-> RegName(regs, k, kind, labels), n |-> regs[k].n]]
Text(x, labels, defs) == [qregs |-> Regs(x.qregs, "q", labels), cregs |-> Regs(x.cregs, "c", labels),
                          defs |-> IF defs THEN Firsts(x.prog, {}) ELSE <<>>,
                          stmts |-> [i \in 1..Len(x.prog) |-> Stmt(x.prog[i], x.qregs, labels)]]
Write(c, labels, defs, version) ==
    /\ IF CanWrite(circs[c], version) THEN val' = <<Text(circs[c], labels, defs)>> /\ res' = "ok" ELSE val' = <<>> /\ res' = "err"
    /\ UNCHANGED circs
\* an operation on its own: the qubits are numbered
Single(o) ==
    /\ IF o.g \in Kinds THEN val' = <<[g |-> Name(o.g), p |-> o.p, q |-> [i \in 1..Len(o.q) |-> [r |-> "q", i |-> i - 1]]]>> /\ res' = "ok"
       ELSE val' = <<>> /\ res' = "err"
    /\ UNCHANGED circs

\* ----------------------------------------------------------------------- making
New(par, qregs, cregs) == circs' = Append(circs, [par |-> par, qregs |-> qregs, cregs |-> cregs, prog |-> <<>>]) /\ val' = <<>> /\ res' = "ok"
AppendOp(c, o) == circs' = [circs EXCEPT ![c].prog = Append(@, o)] /\ val' = <<>> /\ res' = "ok"
\* many of them, one after the other
AppendMany(c, os) == circs' = [circs EXCEPT ![c].prog = @ \o os] /\ val' = <<>> /\ res' = "ok"
\* more registers; the last one may have grown
Extend(c, nq, nb, qregs, cregs) == /\ Size(qregs) = Size(circs[c].qregs) + nq /\ Size(cregs) = Size(circs[c].cregs) + nb
    /\ circs' = [circs EXCEPT ![c].qregs = qregs, ![c].cregs = cregs] /\ val' = <<>> /\ res' = "ok"
Clear(c) == circs' = [circs EXCEPT ![c].prog = <<>>] /\ val' = <<>> /\ res' = "ok"
Drop(c, k) == circs' = [circs EXCEPT ![c].prog = RemoveAt(@, k)] /\ val' = <<>> /\ res' = "ok"

Apply(e) ==
    CASE e.op = "new" -> New(e.par, e.qregs, e.cregs)
      [] e.op = "append" -> AppendOp(e.c, e.o)
      [] e.op = "many" -> AppendMany(e.c, e.os)
      [] e.op = "extend" -> Extend(e.c, e.nq, e.nb, e.qregs, e.cregs)
      [] e.op = "clear" -> Clear(e.c)
      [] e.op = "drop" -> Drop(e.c, e.k)
      [] e.op = "write" -> Write(e.c, e.labels, e.defs, e.version)
      [] e.op = "single" -> Single(circs[e.c].prog[e.k])
      [] e.op = "bare" -> Single(e.o)

Obs == [res |-> res, val |-> val,
        circs |-> [c \in 1..Len(circs) |-> [nq |-> Size(circs[c].qregs), nb |-> Size(circs[c].cregs), prog |-> circs[c].prog]]]

\* ------------------------------------------------------------------- properties
\* every qubit that is used is declared, statements correspond to operations, definitions come once
Sound == \A c \in 1..Len(circs): \A labels, defs \in BOOLEAN:
    CanWrite(circs[c], "2.0") =>
    LET t == Text(circs[c], labels, defs) IN
        /\ Len(t.stmts) = Len(circs[c].prog)
        /\ \A i \in 1..Len(t.stmts): \A j \in 1..Len(t.stmts[i].q):
              \E k \in 1..Len(t.qregs): t.qregs[k].r = t.stmts[i].q[j].r /\ t.stmts[i].q[j].i < t.qregs[k].n
        /\ \A i, j \in 1..Len(t.qregs): i # j => t.qregs[i].r # t.qregs[j].r
        /\ \A i, j \in 1..Len(t.defs): i # j => t.defs[i].name # t.defs[j].name
        \* qubits are told apart
        /\ \A a, b \in 0..(Size(circs[c].qregs) - 1): a # b => Qubit(circs[c].qregs, a, labels) # Qubit(circs[c].qregs, b, labels)
\* operations are on the circuit's qubits
Indexed == \A c \in 1..Len(circs): \A i \in 1..Len(circs[c].prog): \A j \in 1..Len(circs[c].prog[i].q): circs[c].prog[i].q[j] < Size(circs[c].qregs)
Idle == [][val' # <<>> => circs' = circs]_qvars
=============================================================================
