------------------------------- MODULE Custom -------------------------------
(***************************************************************************)
(* Operations made from circuits.  A circuit is [n: qubits, np: parameters,*)
(* ops], an operation of it [g: kind, k: class or 0, q: positions, p].     *)
(* Parameters are angles (Ring), 100 + i for the circuit's i-th variable   *)
(* (i from 0), Free for a variable of nobody's.  Custom operations occur   *)
(* in circuits, too: what an operation stands for is found by expanding.   *)
(***************************************************************************)
EXTENDS Ring
CONSTANT Free
VARIABLES circs, classes, insts, res
cuvars == <<circs, classes, insts, res>>
CuInit == circs = <<>> /\ classes = <<>> /\ insts = <<>> /\ res = "ok"
Ok == res' = "ok"
Err == res' = "err" /\ UNCHANGED <<circs, classes, insts>>

\* ------------------------------------------------------------ what it stands for
Subst(p, vals) == [j \in 1..Len(p) |-> IF p[j] >= 100 /\ p[j] # Free THEN vals[p[j] - 99] ELSE p[j]]
RECURSIVE ExpandAll(_, _, _, _)
\* the library gates that the operations ops (whose variables have the values vals and whose qubits
\* are the qubits qs) come down to
ExpandAll(ops, vals, qs, fuel) ==
    IF ops = <<>> THEN <<>>
    ELSE LET o == Head(ops)
             v == Subst(o.p, vals)
             q == [j \in 1..Len(o.q) |-> qs[o.q[j] + 1]] IN
         (IF o.k = 0 THEN <<[g |-> o.g, q |-> q, p |-> v]>>
          ELSE ExpandAll(circs[classes[o.k]].ops, v, q, fuel - 1)) \o ExpandAll(Tail(ops), vals, qs, fuel)
Upto(n) == [j \in 1..n |-> j - 1]
Expand(k, vals) == ExpandAll(circs[classes[k]].ops, vals, Upto(circs[classes[k]].n), 9)
RECURSIVE RunAll(_, _, _)
RunAll(s, k, p) == IF p = <<>> THEN s ELSE RunAll(ApplyGate(s, k, Head(p).g, Head(p).q, Head(p).p), k, Tail(p))
Columns(k, p) == [j \in 1..Pow2(k) |-> RunAll(Basis(k, j - 1), k, p)]
Known(p) == \A j \in 1..Len(p): p[j] < 100
ClassMatrix(k, vals) == Columns(circs[classes[k]].n, Expand(k, vals))
\* all parameters that the circuit of an instance uses are there
Ready(i) == \A x \in {Expand(insts[i].k, insts[i].p)}: \A j \in 1..Len(x): Known(x[j].p)

\* ------------------------------------------------------------------------ calls
NewCircuit(c) == circs' = Append(circs, c) /\ UNCHANGED <<classes, insts>> /\ Ok
NewClass(c) == classes' = Append(classes, c) /\ UNCHANGED <<circs, insts>> /\ Ok
\* an instance, with nq qubits (-1: without qubits)
NewInst(k, p, nq) == IF Len(p) = circs[classes[k]].np /\ nq \in {-1, circs[classes[k]].n}
                     THEN insts' = Append(insts, [k |-> k, p |-> p]) /\ UNCHANGED <<circs, classes>> /\ Ok
                     ELSE Err
SetParam(i, j, a) == insts' = [insts EXCEPT ![i].p[j] = a] /\ UNCHANGED <<circs, classes>> /\ Ok
Evaluated(i, p) == [insts[i] EXCEPT !.p = [j \in 1..Len(insts[i].p) |-> IF insts[i].p[j] = Free THEN p[j] ELSE insts[i].p[j]]]
Eval(i, p, inplace) == /\ insts' = IF inplace THEN [insts EXCEPT ![i] = Evaluated(i, p)] ELSE Append(insts, Evaluated(i, p))
                       /\ UNCHANGED <<circs, classes>> /\ Ok
Again(i) == insts' = Append(insts, insts[i]) /\ UNCHANGED <<circs, classes>> /\ Ok
\* reading a matrix (and writing into it): there iff no parameter is missing
ReadInst(i) == UNCHANGED <<circs, classes, insts>> /\ res' = IF Ready(i) THEN "ok" ELSE "err"
ReadClass(k) == UNCHANGED <<circs, classes, insts>> /\ res' = IF circs[classes[k]].np = 0 THEN "ok" ELSE "err"
\* simulating a circuit with n qubits of the operations ops
Simulate(n, ops) == UNCHANGED <<circs, classes, insts>> /\ Ok

Apply(e) ==
    CASE e.op = "circuit" -> NewCircuit(e.c)
      [] e.op = "class" -> NewClass(e.c)
      [] e.op = "new" -> NewInst(e.k, e.p, e.nq)
      [] e.op = "set" -> SetParam(e.i, e.j, e.a)
      [] e.op = "eval" -> Eval(e.i, e.p, e.inplace)
      [] e.op = "again" -> Again(e.i)
      [] e.op = "read" -> ReadInst(e.i)
      [] e.op = "read_class" -> ReadClass(e.k)
      [] e.op = "simulate" -> Simulate(e.n, e.ops)

\* everything visible: the circuits as they are, their numbers on the classes, the instances
Obs == [res |-> res, circs |-> circs,
        classes |-> [k \in 1..Len(classes) |-> [n |-> circs[classes[k]].n, np |-> circs[classes[k]].np]],
        insts |-> insts]
\* the numbers TLC gives out for the event e: what a matrix or a simulation must be
Numbers(e) ==
    CASE e.op = "read" -> IF Ready(e.i) THEN ClassMatrix(insts[e.i].k, insts[e.i].p) ELSE <<>>
      [] e.op = "read_class" -> IF circs[classes[e.k]].np = 0 THEN ClassMatrix(e.k, <<>>) ELSE <<>>
      [] e.op = "simulate" -> <<RunAll(Zero(e.n), e.n, ExpandAll(e.ops, <<>>, Upto(e.n), 9))>>
HasNumbers(e) == e.op \in {"read", "read_class", "simulate"} /\ Numbers(e) # <<>>
=============================================================================
