-------------------------------- MODULE Circ --------------------------------
(***************************************************************************)
(* Circuits, their programs, and the contexts in which they are built.     *)
(*                                                                         *)
(* Qubits and bits are numbers from a common pool (circuits may share      *)
(* them).  An operation is [g: kind, q: qubits (<<>>: none given), p:      *)
(* parameters, b: bits measured into, c: condition bits].  A parameter is  *)
(* a number < 100 (a value) or 100 c + i (variable i, from 0, of circuit   *)
(* c).  Operations live in a heap (ops), programs refer to them: an        *)
(* operation that is appended is the one that was created.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES circs,    \* [par: parametric kind, q, b: qubits and bits, prog: positions in ops, locked,
                    \*  frozen: no new variables, vars: values of the variables (NoVal: unset)]
          ops,      \* all operations
          active,   \* the circuit whose context is active, or 0
          frz,      \* the active context is frozen
          stack,    \* open blocks, innermost last: "ctx" or the freezing state to restore
          toreset,  \* circuits whose variables are unset when the context is left
          bits,     \* values of the bits: 2 is unset
          res       \* result of the last call
cvars == <<circs, ops, active, frz, stack, toreset, bits, res>>
NoVal == -1

\* ------------------------------------------------------------------------ kinds
Gates1 == {"Identity", "X", "Y", "Z", "Hadamard", "S", "T"}
Rots1 == {"RX", "RY", "RZ"}
Ctls == {"CX", "CY", "CZ", "CHadamard", "CRX", "CRY", "CRZ", "CRotation"}
AnyNumber == {"Barrier", "Measurement"}
AllKinds == Gates1 \cup Rots1 \cup Ctls \cup AnyNumber \cup {"Rotation", "SWAP", "CSWAP", "CCX", "CCZ", "CCRX", "Mine", "MineP"}
\* MineP is made from a circuit with two parameters and two qubits, Mine from one with one qubit
NeedQ(g) == CASE g \in Ctls \cup {"SWAP", "MineP"} -> 2 [] g \in {"CSWAP", "CCX", "CCZ", "CCRX"} -> 3 [] OTHER -> 1
NeedP(g) == CASE g \in Rots1 \cup {"CRX", "CRY", "CRZ", "CCRX"} -> 1 [] g \in {"Rotation", "CRotation"} -> 3
              [] g = "MineP" -> 2 [] OTHER -> 0
RightQ(g, q) == IF g \in AnyNumber THEN Len(q) >= 1 ELSE Len(q) = NeedQ(g)

\* ----------------------------------------------------------------- small helpers
Range(s) == {s[i]: i \in 1..Len(s)}
IsVar(x) == x >= 100
NP(c) == Len(circs[c].vars)
HasVal(x) == (x \div 100) \in 1..Len(circs) /\ (x % 100) < NP(x \div 100) /\ circs[x \div 100].vars[(x % 100) + 1] # NoVal
ValOf(x) == IF IsVar(x) /\ HasVal(x) THEN circs[x \div 100].vars[(x % 100) + 1] ELSE x
Ok == res' = "ok"
Err == res' = "err" /\ UNCHANGED <<circs, ops, active, frz, stack, toreset, bits>>
PosOf(s, x) == CHOOSE i \in 1..Len(s): s[i] = x
RECURSIVE SeqFilter(_, _)
SeqFilter(s, x) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = x THEN <<>> ELSE <<Head(s)>>) \o SeqFilter(Tail(s), x)

\* the circuits before anything happened: [par, q, b, np]
Fresh(x) == [par |-> x.par, q |-> x.q, b |-> x.b, prog |-> <<>>, locked |-> FALSE, frozen |-> FALSE,
             vars |-> [i \in 1..x.np |-> NoVal]]
CInit(cs, bs) == /\ circs = [i \in 1..Len(cs) |-> Fresh(cs[i])] /\ ops = <<>> /\ active = 0 /\ frz = FALSE
                 /\ stack = <<>> /\ toreset = {} /\ bits = bs /\ res = "ok"

\* -------------------------------------------------------------------- appending
\* what becomes of an operation that is appended to circuit c: a circuit without parameters holds only values
Resolved(c, o) == IF NP(c) > 0 THEN o ELSE [o EXCEPT !.p = [j \in 1..Len(o.p) |-> ValOf(o.p[j])]]
Takes(c, o) == /\ ~circs[c].locked
               /\ Range(o.q) \subseteq Range(circs[c].q)
               /\ \A j \in 1..Len(o.p): NP(c) > 0 \/ ~IsVar(o.p[j]) \/ HasVal(o.p[j])
\* operations that are well formed, wherever they are created
Formed(o) == /\ o.q = <<>> \/ RightQ(o.g, o.q)
             /\ Len(o.p) = NeedP(o.g)
\* using variables of the active circuit brings them into being
Grown(o) == IF active = 0 \/ circs[active].frozen THEN circs
            ELSE LET is == {o.p[j] % 100 : j \in {j \in 1..Len(o.p): IsVar(o.p[j]) /\ o.p[j] \div 100 = active}}
                     n == NP(active) IN
                 [circs EXCEPT ![active].vars = @ \o [i \in 1..(IF is = {} THEN 0 ELSE LET m == CHOOSE m \in is: \A k \in is: k <= m IN
                                                                IF m + 1 > n THEN m + 1 - n ELSE 0) |-> NoVal]]

\* an operation is created: within an active context that is not frozen it is appended there
Create(o) ==
    LET cs == Grown(o)
        c == active
        \* (parametric as soon as there are variables)
        plain == c # 0 /\ Len(cs[c].vars) = 0
        r == IF c = 0 \/ frz THEN o ELSE IF plain THEN Resolved(c, o) ELSE o
        taken == c # 0 /\ o.q # <<>> /\ (frz \/ (/\ ~cs[c].locked /\ Range(o.q) \subseteq Range(cs[c].q)
                                                 /\ (plain => \A j \in 1..Len(o.p): ~IsVar(o.p[j]) \/ HasVal(o.p[j])))) IN
    IF ~Formed(o) \/ (c # 0 /\ ~taken) THEN res' = "err" /\ circs' = cs /\ UNCHANGED <<ops, active, frz, stack, toreset, bits>>
    ELSE /\ ops' = Append(ops, r)
         /\ circs' = IF c = 0 \/ frz THEN cs ELSE [cs EXCEPT ![c].prog = Append(@, Len(ops) + 1)]
         /\ UNCHANGED <<active, frz, stack, toreset, bits>> /\ Ok
\* an operation is applied again, on its own qubits or on others; conditions and bits are not taken over
Again(i, q) == Create([ops[i] EXCEPT !.q = IF q = <<>> THEN @ ELSE q, !.b = <<>>, !.c = <<>>])

\* appending directly, one or several; when one is rejected, nothing is appended or what came before it
RECURSIVE AppendTo(_, _, _, _)
\* [prog, ops, n: how many fit]
AppendTo(c, is, s, k) ==
    IF is = <<>> THEN s
    ELSE IF ~Takes(c, s.ops[Head(is)]) THEN s
    ELSE AppendTo(c, Tail(is), [prog |-> Append(s.prog, Head(is)), ops |-> [s.ops EXCEPT ![Head(is)] = Resolved(c, @)], n |-> s.n + 1], k)
Extend(c, is) ==
    LET s == AppendTo(c, is, [prog |-> circs[c].prog, ops |-> ops, n |-> 0], 0) IN
    IF s.n = Len(is) THEN /\ circs' = [circs EXCEPT ![c].prog = s.prog] /\ ops' = s.ops
                          /\ UNCHANGED <<active, frz, stack, toreset, bits>> /\ Ok
    ELSE \/ Err
         \/ /\ s.n > 0 /\ circs' = [circs EXCEPT ![c].prog = s.prog] /\ ops' = s.ops
            /\ UNCHANGED <<active, frz, stack, toreset, bits>> /\ res' = "err"
\* operations are equal iff kind, qubits and parameters are; a variable equals another one with its name (its
\* position) and the value it holds
EqPar(x, y) == x = y \/ (IsVar(x) /\ IsVar(y) /\ x % 100 = y % 100) \/ ValOf(x) = y \/ ValOf(y) = x
EqOp(x, y) == x.g = y.g /\ x.q = y.q /\ \A j \in 1..Len(x.p): EqPar(x.p[j], y.p[j])
Remove(c, i) ==
    LET eq == {k \in 1..Len(circs[c].prog): EqOp(ops[circs[c].prog[k]], ops[i])} IN
    IF eq = {} THEN Err
    ELSE LET k == CHOOSE k \in eq: \A m \in eq: k <= m IN
         /\ circs' = [circs EXCEPT ![c].prog = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
         /\ UNCHANGED <<ops, active, frz, stack, toreset, bits>> /\ Ok
Reset(c, keep) ==
    /\ circs' = [circs EXCEPT ![c].prog = <<>>, ![c].locked = FALSE, ![c].frozen = FALSE,
                              ![c].q = IF keep THEN @ ELSE <<>>, ![c].b = IF keep THEN @ ELSE <<>>]
    /\ bits' = IF keep THEN [i \in 1..Len(bits) |-> IF i \in Range(circs[c].b) THEN 2 ELSE bits[i]] ELSE bits
    /\ UNCHANGED <<ops, active, frz, stack, toreset>> /\ Ok
\* qubits and bits are added (the ones that are not there yet)
Refill(c, q, b) ==
    /\ circs' = [circs EXCEPT ![c].q = @ \o q, ![c].b = @ \o b]
    /\ UNCHANGED <<ops, active, frz, stack, toreset, bits>> /\ Ok

\* --------------------------------------------------------------------- contexts
Enter(c) ==
    IF active # 0 \/ circs[c].locked THEN Err
    ELSE /\ active' = c /\ frz' = FALSE /\ stack' = Append(stack, "ctx")
         /\ UNCHANGED <<circs, ops, toreset, bits>> /\ Ok
Freeze ==
    IF active = 0 THEN Err
    ELSE /\ stack' = Append(stack, IF frz THEN "frozen" ELSE "thawed") /\ frz' = TRUE
         /\ UNCHANGED <<circs, ops, active, toreset, bits>> /\ Ok
\* the innermost block is left, normally or through an exception
Leave ==
    LET top == stack[Len(stack)] IN
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ IF top = "ctx"
       THEN /\ active' = 0 /\ frz' = FALSE /\ toreset' = {}
            /\ circs' = [c \in 1..Len(circs) |->
                          [circs[c] EXCEPT !.vars = IF c \in toreset THEN [i \in 1..Len(@) |-> NoVal] ELSE @,
                                           !.locked = IF c = active THEN TRUE ELSE @,
                                           !.frozen = IF c = active THEN TRUE ELSE @]]
       ELSE frz' = (top = "frozen") /\ UNCHANGED <<circs, active, toreset>>
    /\ UNCHANGED <<ops, bits>> /\ Ok
Lock(c) == circs' = [circs EXCEPT ![c].locked = TRUE] /\ UNCHANGED <<ops, active, frz, stack, toreset, bits>> /\ Ok
Unlock(c) == circs' = [circs EXCEPT ![c].locked = FALSE, ![c].frozen = FALSE] /\ UNCHANGED <<ops, active, frz, stack, toreset, bits>> /\ Ok

\* ---------------------------------------------------------- applying a circuit
\* the operations of circuit c with its qubits and bits replaced by those given (none: its own bits stay in
\* conditions, and measurements have no bits), and its variables by their values
Mapped(c, q, b, vs) ==
    LET mq(x) == q[PosOf(circs[c].q, x)]
        mb(x) == IF b # <<>> /\ x \in Range(circs[c].b) THEN b[PosOf(circs[c].b, x)] ELSE x
        mp(x) == IF IsVar(x) /\ x \div 100 = c THEN vs[(x % 100) + 1] ELSE ValOf(x) IN
    [k \in 1..Len(circs[c].prog) |->
        LET o == ops[circs[c].prog[k]] IN
        [g |-> o.g, q |-> [j \in 1..Len(o.q) |-> mq(o.q[j])], p |-> [j \in 1..Len(o.p) |-> mp(o.p[j])],
         b |-> IF b = <<>> THEN <<>> ELSE [j \in 1..Len(o.b) |-> mb(o.b[j])],
         c |-> [j \in 1..Len(o.c) |-> mb(o.c[j])]]]
\* whether it can be applied at all
Applicable(c, q, b, p) ==
    /\ active # 0 /\ active # c
    /\ Len(q) = Len(circs[c].q) /\ (b = <<>> \/ Len(b) = Len(circs[c].b))
    /\ Len(p) = NP(c)
\* the variables of c have the given values until the context is left
Assigned(c, p) == IF active = 0 \/ p = <<>> THEN circs
                  ELSE [circs EXCEPT ![c].vars = [i \in 1..NP(c) |-> IF i <= Len(p) THEN p[i] ELSE @[i]]]
CallIt(c, q, b, p) ==
    LET m == Mapped(c, q, b, p)
        fails == {k \in 1..Len(m): ~Takes(active, m[k])}
        first == IF fails = {} THEN Len(m) + 1 ELSE CHOOSE k \in fails: \A i \in fails: k <= i
        done == [k \in 1..(first - 1) |-> Resolved(active, m[k])]
        cs == Assigned(c, p) IN
    IF frz THEN circs' = cs /\ UNCHANGED ops /\ Ok
    ELSE /\ ops' = ops \o done
         /\ circs' = [cs EXCEPT ![active].prog = @ \o [k \in 1..(first - 1) |-> Len(ops) + k]]
         /\ res' = IF fails = {} THEN "ok" ELSE "err"
Call(c, q, b, p) ==
    /\ toreset' = IF active # 0 /\ NP(c) > 0 THEN toreset \cup {c} ELSE toreset
    /\ UNCHANGED <<active, frz, stack, bits>>
    /\ IF Applicable(c, q, b, p) THEN CallIt(c, q, b, p)
       ELSE circs' = Assigned(c, p) /\ UNCHANGED ops /\ res' = "err"

\* -------------------------------------------------------------------- parameters
SetVar(c, i, v) == /\ circs' = [circs EXCEPT ![c].vars[i + 1] = v]
                   /\ UNCHANGED <<ops, active, frz, stack, toreset, bits>> /\ Ok
\* the parameters given (none: <<>>) replace variables at their positions; else the variables' values do
Evaluable(o, p) == \A j \in 1..Len(o.p): IsVar(o.p[j]) => p # <<>> \/ HasVal(o.p[j])
Evaluated(o, p) == [o EXCEPT !.p = [j \in 1..Len(@) |-> IF IsVar(@[j]) THEN IF p # <<>> THEN p[j] ELSE ValOf(@[j]) ELSE @[j]]]
EvalOp(i, p, inplace) ==
    IF ~Evaluable(ops[i], p) THEN Err
    ELSE /\ ops' = IF inplace THEN [ops EXCEPT ![i] = Evaluated(@, p)] ELSE Append(ops, Evaluated(ops[i], p))
         /\ UNCHANGED <<circs, active, frz, stack, toreset, bits>> /\ Ok
\* ps: a sequence of parameters for each operation of the circuit, or <<>>
Par(ps, k) == IF ps = <<>> THEN <<>> ELSE ps[k]
EvalCirc(c, ps, inplace) ==
    LET prog == circs[c].prog IN
    IF \E k \in 1..Len(prog): ~Evaluable(ops[prog[k]], Par(ps, k)) THEN Err
    ELSE IF inplace
    \* (an operation that occurs twice is evaluated at its first occurrence)
    THEN /\ ops' = [i \in 1..Len(ops) |-> IF i \in Range(prog)
                        THEN Evaluated(ops[i], Par(ps, CHOOSE k \in 1..Len(prog): prog[k] = i /\ \A m \in 1..(k - 1): prog[m] # i)) ELSE ops[i]]
         /\ UNCHANGED <<circs, active, frz, stack, toreset, bits>> /\ Ok
    ELSE /\ ops' = ops \o [k \in 1..Len(prog) |-> Evaluated(ops[prog[k]], Par(ps, k))]
         /\ circs' = Append(circs, [circs[c] EXCEPT !.prog = [k \in 1..Len(prog) |-> Len(ops) + k]])
         /\ UNCHANGED <<active, frz, stack, toreset, bits>> /\ Ok
\* a parameter of an operation is replaced by the caller
SetParam(i, j, v) == /\ ops' = [ops EXCEPT ![i].p[j] = v]
                     /\ UNCHANGED <<circs, active, frz, stack, toreset, bits>> /\ Ok
\* an operation gets other qubits, wherever it is used
SetQubits(i, q) == IF RightQ(ops[i].g, q) THEN /\ ops' = [ops EXCEPT ![i].q = q]
                                               /\ UNCHANGED <<circs, active, frz, stack, toreset, bits>> /\ Ok
                   ELSE Err
SetBit(b, v) == /\ bits' = [bits EXCEPT ![b] = v]
                /\ UNCHANGED <<circs, ops, active, frz, stack, toreset>> /\ Ok

Apply(e) ==
    CASE e.op = "create" -> Create([g |-> e.g, q |-> e.q, p |-> e.p, b |-> e.b, c |-> e.c])
      [] e.op = "again" -> Again(e.o, e.q)
      [] e.op = "extend" -> Extend(e.c, e.os)
      [] e.op = "remove" -> Remove(e.c, e.o)
      [] e.op = "reset" -> Reset(e.c, e.keep)
      [] e.op = "refill" -> Refill(e.c, e.q, e.b)
      [] e.op = "enter" -> Enter(e.c)
      [] e.op = "freeze" -> Freeze
      [] e.op = "leave" -> Leave
      [] e.op = "lock" -> Lock(e.c)
      [] e.op = "unlock" -> Unlock(e.c)
      [] e.op = "call" -> Call(e.c, e.q, e.b, e.p)
      [] e.op = "setvar" -> SetVar(e.c, e.i, e.v)
      [] e.op = "evalop" -> EvalOp(e.o, e.p, e.inplace)
      [] e.op = "evalcirc" -> EvalCirc(e.c, e.ps, e.inplace)
      [] e.op = "setparam" -> SetParam(e.o, e.j, e.v)
      [] e.op = "setqubits" -> SetQubits(e.o, e.q)
      [] e.op = "setbit" -> SetBit(e.b, e.v)

\* everything visible; variables of circuits have values for the applied circuits only while a context is
\* active, so they are looked at outside of contexts
Obs == [res |-> res, active |-> active, frozen |-> frz, bits |-> bits,
        ops |-> ops,
        circs |-> [c \in 1..Len(circs) |->
            [q |-> circs[c].q, b |-> circs[c].b, locked |-> circs[c].locked, np |-> NP(c),
             vars |-> IF active = 0 THEN circs[c].vars ELSE <<>>,
             prog |-> [k \in 1..Len(circs[c].prog) |-> ops[circs[c].prog[k]]]]]]

\* --------------------------------------------------------------------- properties
\* C16
InCircuit == \A c \in 1..Len(circs): \A k \in 1..Len(circs[c].prog):
                circs[c].q # <<>> => Range(ops[circs[c].prog[k]].q) \subseteq Range(circs[c].q)
WellFormed == \A i \in 1..Len(ops): Formed(ops[i])
ErrIdle == [][res' = "err" => (\A c \in 1..Len(circs): circs'[c].q = circs[c].q /\ circs'[c].locked = circs[c].locked)
                              /\ active' = active /\ frz' = frz /\ stack' = stack]_cvars
LockedIdle == [][\A c \in 1..Len(circs): circs[c].locked => Len(circs'[c].prog) <= Len(circs[c].prog)]_cvars
FrozenIdle == [][\A c \in 1..Len(circs): frz /\ c = active /\ Len(circs'[c].prog) > Len(circs[c].prog) => ops' = ops \/ Len(ops) = Len(ops')]_cvars
\* C17
OneActive == /\ active # 0 <=> stack # <<>>
             /\ \A i \in 1..Len(stack): (stack[i] = "ctx") <=> (i = 1)
             /\ frz <=> Len(stack) > 1
LeaveLocks == [][active # 0 /\ active' = 0 => circs'[active].locked]_cvars
EnterFree == [][active = 0 /\ active' # 0 => ~circs[active'].locked]_cvars
\* C19
PlainValues == \A c \in 1..Len(circs): NP(c) = 0 => \A k \in 1..Len(circs[c].prog): \A j \in 1..Len(ops[circs[c].prog[k]].p):
                  ~IsVar(ops[circs[c].prog[k]].p[j])
Unset == active = 0 => toreset = {}
=============================================================================
