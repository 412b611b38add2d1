--------------------------------- MODULE Qir ---------------------------------
(* Circuits compiled to QIR and QIR loaded into circuits.  An operation is [g, q, p, b, c] with positions *)
(* of qubits and bits among all of the circuit (from 0), values of parameters as numbers; b = <<-1>>: no   *)
(* bits.  A QIR program is [nq, nb, body, meas: calls [f, p, q, r], out: results that are recorded].       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES circs,   \* Seq of [nq, nb, prog]
          texts,   \* Seq of programs
          res
qvars == <<circs, texts, res>>
QInit == circs = <<>> /\ texts = <<>> /\ res = "ok"
NoBits == <<-1>>

Fun(g) == CASE g = "X" -> "x" [] g = "Y" -> "y" [] g = "Z" -> "z" [] g = "Hadamard" -> "h" [] g = "S" -> "s" [] g = "T" -> "t"
            [] g = "RX" -> "rx" [] g = "RY" -> "ry" [] g = "RZ" -> "rz" [] g = "CX" -> "cnot" [] g = "CZ" -> "cz"
            [] g = "Rotation" -> "rot" [] g = "CY" -> "cy" [] g = "SWAP" -> "swap" [] g = "CHadamard" -> "ch"
            [] g = "CRX" -> "crx" [] g = "CRY" -> "cry" [] g = "CRZ" -> "crz" [] g = "CRotation" -> "crot"
            [] g = "CSWAP" -> "cswap" [] g = "CCX" -> "ccnot" [] g = "Measurement" -> "mz" [] g = "Identity" -> "id"
            [] OTHER -> "?"
Base == {"X", "Y", "Z", "Hadamard", "S", "T", "RX", "RY", "RZ", "CX", "CZ"}
External == {"Rotation", "CY", "SWAP", "CHadamard", "CRX", "CRY", "CRZ", "CRotation", "CSWAP", "CCX"}
Gates == Base \cup External
Others == {"Barrier", "Custom", "CCZ"}   \* nothing in QIR corresponds to them
Kinds == Gates \cup Others \cup {"Identity", "Measurement"}
NeedQ(g) == CASE g \in {"CX", "CY", "CZ", "CHadamard", "SWAP", "CRX", "CRY", "CRZ", "CRotation"} -> 2
              [] g \in {"CSWAP", "CCX", "CCZ"} -> 3 [] OTHER -> 1
NeedP(g) == CASE g \in {"RX", "RY", "RZ", "CRX", "CRY", "CRZ"} -> 1 [] g \in {"Rotation", "CRotation"} -> 3 [] OTHER -> 0

\* ------------------------------------------------------------------- compiling
Expressible(o, ext) == /\ o.c = <<>>
                       /\ \/ o.g \in Base \cup {"Identity"} \/ (ext /\ o.g \in External)
                          \/ (o.g = "Measurement" /\ o.b # NoBits)
\* gates come before measurements; identities have no effect anywhere
Ordered(prog) == \A i \in 1..Len(prog): \A j \in 1..(i - 1): prog[j].g = "Measurement" => prog[i].g \in {"Measurement", "Identity"}
CanCompile(prog, ext) == Ordered(prog) /\ \A i \in 1..Len(prog): Expressible(prog[i], ext)
Call(o) == [f |-> Fun(o.g), p |-> o.p, q |-> o.q, r |-> <<>>]
Pairs(o) == [i \in 1..Len(o.q) |-> [f |-> "mz", p |-> <<>>, q |-> <<o.q[i]>>, r |-> <<o.b[i]>>]]
Meas(prog) == FlattenSeq([i \in 1..Len(prog) |-> IF prog[i].g = "Measurement" THEN Pairs(prog[i]) ELSE <<>>])
Program(c) == LET prog == c.prog gates == SelectSeq(prog, LAMBDA o: o.g \in Gates) IN
    [nq |-> c.nq, nb |-> c.nb, body |-> [i \in 1..Len(gates) |-> Call(gates[i])], meas |-> Meas(prog),
     out |-> [i \in 1..Len(Meas(prog)) |-> Meas(prog)[i].r[1]]]
Compile(c, ext) == IF CanCompile(circs[c].prog, ext) THEN texts' = Append(texts, Program(circs[c])) /\ UNCHANGED circs /\ res' = "ok"
                   ELSE UNCHANGED <<circs, texts>> /\ res' = "err"

\* --------------------------------------------------------------------- loading
Known == Gates \cup {"Identity"}
Recognised(f) == f \in {Fun(g): g \in Known} \cup {"cx", "mz"}
KindOf(f) == IF f = "cx" THEN "CX" ELSE CHOOSE g \in Known: Fun(g) = f
\* measurements that follow each other become one; gates stay on their side of it
Measured(x) == [g |-> "Measurement", q |-> x.q, p |-> <<>>, b |-> x.r, c |-> <<>>]
Loaded(t) == FoldLeft(LAMBDA a, x:
    IF x.f # "mz" THEN Append(a, [g |-> KindOf(x.f), q |-> x.q, p |-> x.p, b |-> NoBits, c |-> <<>>])
    ELSE IF a # <<>> /\ Last(a).g = "Measurement" THEN [a EXCEPT ![Len(a)].q = @ \o x.q, ![Len(a)].b = @ \o x.r]
    ELSE Append(a, Measured(x)), <<>>, t.body \o t.meas)
Max2(a, b) == IF a > b THEN a ELSE b
MaxOf(s) == FoldLeft(Max2, -1, s)
UsedQ(t) == MaxOf([i \in 1..Len(t.body) |-> MaxOf(t.body[i].q)] \o [i \in 1..Len(t.meas) |-> t.meas[i].q[1]]) + 1
UsedB(t) == LET x == t.body \o t.meas IN MaxOf([i \in 1..Len(x) |-> MaxOf(x[i].r)]) + 1
\* into circuit c, or into a new one (c = 0); it then has nq qubits and nb bits: as many as needed, at least
CanLoad(t) == \A i \in 1..Len(texts[t].body): Recognised(texts[t].body[i].f)
Load(t, c, nq, nb) ==
    LET x == texts[t]
        old == IF c = 0 THEN [nq |-> 0, nb |-> 0, prog |-> <<>>] ELSE circs[c]
        new == [nq |-> nq, nb |-> nb, prog |-> old.prog \o Loaded(x)] IN
    IF ~CanLoad(t) THEN UNCHANGED <<circs, texts>> /\ res' = "err"
    ELSE /\ nq >= Max2(old.nq, UsedQ(x)) /\ nb >= Max2(old.nb, UsedB(x))
         /\ nq <= Max2(Max2(old.nq, UsedQ(x)), x.nq) /\ nb <= Max2(Max2(old.nb, UsedB(x)), x.nb)
         /\ circs' = IF c = 0 THEN Append(circs, new) ELSE [circs EXCEPT ![c] = new]
         /\ UNCHANGED texts /\ res' = "ok"

\* -------------------------------------------------------------- making them
NewCirc(nq, nb) == circs' = Append(circs, [nq |-> nq, nb |-> nb, prog |-> <<>>]) /\ UNCHANGED texts /\ res' = "ok"
AppendOp(c, o) == circs' = [circs EXCEPT ![c].prog = Append(@, o)] /\ UNCHANGED texts /\ res' = "ok"
\* many of them, one after the other
AppendMany(c, os) == circs' = [circs EXCEPT ![c].prog = @ \o os] /\ UNCHANGED texts /\ res' = "ok"
\* qubits and bits in registers of their own
Extend(c, nq, nb) == circs' = [circs EXCEPT ![c].nq = @ + nq, ![c].nb = @ + nb] /\ UNCHANGED texts /\ res' = "ok"
Clear(c) == circs' = [circs EXCEPT ![c].prog = <<>>] /\ UNCHANGED texts /\ res' = "ok"
\* a program that was made elsewhere
Write(t) == texts' = Append(texts, t) /\ UNCHANGED circs /\ res' = "ok"

Apply(e) ==
    CASE e.op = "new" -> NewCirc(e.nq, e.nb)
      [] e.op = "append" -> AppendOp(e.c, e.o)
      [] e.op = "many" -> AppendMany(e.c, e.os)
      [] e.op = "extend" -> Extend(e.c, e.nq, e.nb)
      [] e.op = "clear" -> Clear(e.c)
      [] e.op = "write" -> Write(e.t)
      [] e.op = "compile" -> Compile(e.c, e.ext)
      [] e.op = "load" -> Load(e.t, e.c, e.nq, e.nb)

Obs == [res |-> res, circs |-> circs, texts |-> texts]

\* ------------------------------------------------------------------ properties
\* loading what a circuit compiles to gives its gates and measurements back
NoIds(prog) == SelectSeq(prog, LAMBDA o: o.g # "Identity")
GatesOf(prog) == SelectSeq(prog, LAMBDA o: o.g \in Gates)
RoundTrip == \A c \in 1..Len(circs): LET x == circs[c] t == Program(x) IN
    CanCompile(x.prog, TRUE) =>
        /\ GatesOf(Loaded(t)) = GatesOf(x.prog)
        /\ Meas(Loaded(t)) = Meas(x.prog)
        /\ Ordered(Loaded(t))
        /\ UsedQ(t) <= x.nq /\ UsedB(t) <= x.nb
        \* and it compiles to the same
        /\ Program([x EXCEPT !.prog = Loaded(t)]) = t
InRange == \A c \in 1..Len(circs): LET x == circs[c] IN \A i \in 1..Len(x.prog):
    (\A j \in 1..Len(x.prog[i].q): x.prog[i].q[j] < x.nq) /\ (\A j \in 1..Len(x.prog[i].b): x.prog[i].b[j] < x.nb)
\* circuits only grow at the end (unless cleared), programs never change
Grows == [][\A i \in 1..Len(texts): texts'[i] = texts[i]]_qvars
CompileIdle == [][texts' # texts => circs' = circs]_qvars
=============================================================================
