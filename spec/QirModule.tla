------------------------------ MODULE QirModule ------------------------------
(* QIR modules (BaseModule): lists of instructions in three blocks, external functions, a return value, and *)
(* the program they were compiled to.  An instruction is [t, f, p, q, r]: its type ("base", "mz", "ext",    *)
(* "out": record a result, "bad": something that cannot be executed), function, parameters, qubits, results.*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES mods,   \* Seq of [head, nq, nb, body, meas, out, decl (declared external functions [f, np, nq]), ret, compiled, prog]
          res
mvars == <<mods, res>>
XInit == mods = <<>> /\ res = "ok"

\* name and options [name, major, minor: version, dq, dr: dynamic management of qubits and results]
Plain == [name |-> "Circuit", major |-> 1, minor |-> 0, dq |-> FALSE, dr |-> FALSE]
Empty == [head |-> Plain, nq |-> 0, nb |-> 0, body |-> <<>>, meas |-> <<>>, out |-> <<>>, ret |-> 0]
Fresh(head, nq, nb) == [head |-> head, nq |-> nq, nb |-> nb, body |-> <<>>, meas |-> <<>>, out |-> <<>>, decl |-> {}, ret |-> 0,
                  compiled |-> FALSE, prog |-> Empty]
\* what an instruction is in a program
Called(i) == [f |-> IF i.t = "base" /\ i.f = "cx" THEN "cnot" ELSE i.f, p |-> i.p, q |-> i.q, r |-> i.r]
Calls(s) == [k \in 1..Len(s) |-> Called(s[k])]
Prog(m) == [head |-> m.head, nq |-> m.nq, nb |-> m.nb, body |-> Calls(m.body), meas |-> Calls(m.meas),
            out |-> [k \in 1..Len(m.out) |-> m.out[k].r[1]], ret |-> m.ret]
Good(m) == \A s \in {m.body, m.meas, m.out}: \A k \in 1..Len(s): s[k].t # "bad"
Put(m, x) == mods' = [mods EXCEPT ![m] = x]

New(head, nq, nb) == mods' = Append(mods, Fresh(head, nq, nb)) /\ res' = "ok"
\* made from a circuit
Of(nq, nb, body, meas) ==
    /\ mods' = Append(mods, [Fresh(Plain, nq, nb) EXCEPT !.body = body, !.meas = meas,
                                !.out = [k \in 1..Len(meas) |-> [t |-> "out", f |-> "out", p |-> <<>>, q |-> <<>>, r |-> meas[k].r]],
                                !.decl = {[f |-> body[k].f, np |-> Len(body[k].p), nq |-> Len(body[k].q)]:
                                            k \in {k \in 1..Len(body): body[k].t = "ext"}}])
    /\ res' = "ok"
Declared(m, f) == \E d \in mods[m].decl: d.f = f
Add(m, blk, i) ==
    IF blk \notin {"body", "meas", "out"} \/ (i.t = "ext" /\ ~Declared(m, i.f)) THEN UNCHANGED mods /\ res' = "err"
    ELSE /\ Put(m, CASE blk = "body" -> [mods[m] EXCEPT !.body = Append(@, i)]
                     [] blk = "meas" -> [mods[m] EXCEPT !.meas = Append(@, i)]
                     [] blk = "out" -> [mods[m] EXCEPT !.out = Append(@, i)])
         /\ res' = "ok"
AddMany(m, is) == Put(m, [mods[m] EXCEPT !.body = @ \o is]) /\ res' = "ok"
Declare(m, d) == Put(m, [mods[m] EXCEPT !.decl = @ \cup {d}]) /\ res' = "ok"
SetRet(m, v, force) == IF mods[m].ret # 0 /\ ~force THEN UNCHANGED mods /\ res' = "err"
                       ELSE Put(m, [mods[m] EXCEPT !.ret = v]) /\ res' = "ok"
Compile(m, force, strict) ==
    LET x == mods[m] IN
    IF x.compiled /\ ~force THEN UNCHANGED mods /\ res' = "err"
    \* the entry point has no return value
    ELSE IF Good(x) /\ (x.ret = 0 \/ ~strict) THEN Put(m, [x EXCEPT !.compiled = TRUE, !.prog = Prog(x)]) /\ res' = "ok"
    ELSE Put(m, [x EXCEPT !.compiled = FALSE, !.prog = Empty]) /\ res' = "err"
\* reading the output compiles a module that is not
Read(m) == IF mods[m].compiled THEN UNCHANGED mods /\ res' = "ok" ELSE Compile(m, FALSE, TRUE)
Reset(m, rm) ==
    /\ Put(m, IF rm THEN Fresh(mods[m].head, mods[m].nq, mods[m].nb) ELSE [mods[m] EXCEPT !.compiled = FALSE, !.prog = Empty])
    /\ res' = "ok"

Apply(e) ==
    CASE e.op = "new" -> New(e.head, e.nq, e.nb)
      [] e.op = "of" -> Of(e.nq, e.nb, e.body, e.meas)
      [] e.op = "add" -> Add(e.m, e.blk, e.i)
      [] e.op = "many" -> AddMany(e.m, e.is)
      [] e.op = "declare" -> Declare(e.m, e.d)
      [] e.op = "setret" -> SetRet(e.m, e.v, e.force)
      [] e.op = "compile" -> Compile(e.m, e.force, e.strict)
      [] e.op = "read" -> Read(e.m)
      [] e.op = "reset" -> Reset(e.m, e.rm)

\* the outputs of all modules that are compiled (of the others, reading would compile them)
Obs == [res |-> res, mods |-> [m \in 1..Len(mods) |-> [compiled |-> mods[m].compiled, prog |-> mods[m].prog]]]

\* ------------------------------------------------------------------ properties
OutputOk == \A m \in 1..Len(mods): mods[m].compiled => Len(mods[m].prog.body) <= Len(mods[m].body)
\* resetting without removing leaves what the next compilation gives
Kept == [][\A m \in 1..Len(mods): ~mods'[m].compiled /\ mods[m].compiled => Prog(mods'[m]) \in {Prog(mods[m]), Prog(Fresh(mods[m].head, mods[m].nq, mods[m].nb))}]_mvars
=============================================================================
