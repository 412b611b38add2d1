------------------------------- MODULE Params -------------------------------
(* Parameter registers (SelfIncrementingRegister) on their own and as the parameter register of a          *)
(* parametric circuit whose context freezes them.  Variables are objects with a name: name k >= 0 is the   *)
(* number k, negative names are other strings.  Registers compare variables by name.                      *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES vars,    \* Seq of names, in order of creation
          regs,    \* Seq of [items: Seq of positions in vars, frozen: BOOLEAN, circ: position in circs or 0]
          circs,   \* Seq of [locked: BOOLEAN, reg: position in regs]
          active,  \* the circuit whose context is active, or 0
          res, val \* outcome of the last call, variable it returned (0: none)
pvars == <<vars, regs, circs, active, res, val>>

ParInit == vars = <<>> /\ regs = <<>> /\ circs = <<>> /\ active = 0 /\ res = "ok" /\ val = 0
Ok == res' = "ok" /\ val' = 0
Err == res' = "err" /\ val' = 0
Ret(v) == res' = "ok" /\ val' = v
Same == UNCHANGED <<vars, regs, circs, active>>

Items(r) == regs[r].items
Names(r) == [i \in 1..Len(Items(r)) |-> vars[Items(r)[i]]]
HasName(r, n) == \E i \in 1..Len(Items(r)): vars[Items(r)[i]] = n

NewReg == regs' = Append(regs, [items |-> <<>>, frozen |-> FALSE, circ |-> 0]) /\ UNCHANGED <<vars, circs, active>> /\ Ok
NewCirc == /\ regs' = Append(regs, [items |-> <<>>, frozen |-> FALSE, circ |-> Len(circs) + 1])
           /\ circs' = Append(circs, [locked |-> FALSE, reg |-> Len(regs) + 1])
           /\ UNCHANGED <<vars, active>> /\ Ok
\* a copy holds the same variables and is independent of the original
Copy(r) == /\ regs' = Append(regs, [items |-> Items(r), frozen |-> FALSE, circ |-> 0])
           /\ UNCHANGED <<vars, circs, active>> /\ Ok

\* indexing: variables numbered by their position are created up to i
NewNames(r, i) == {k \in Len(Items(r))..i : TRUE}
Grow(r, i) ==
    LET n == Len(Items(r)) m == i + 1 - n IN
    /\ vars' = vars \o [k \in 1..m |-> n + k - 1]
    /\ regs' = [regs EXCEPT ![r].items = @ \o [k \in 1..m |-> Len(vars) + k]]
    /\ UNCHANGED <<circs, active>>
Index(r, i) ==
    LET n == Len(Items(r)) IN
    IF i >= 0 /\ i < n THEN Same /\ Ret(Items(r)[i + 1])
    ELSE IF i < 0 THEN IF i >= -n THEN Same /\ Ret(Items(r)[n + i + 1]) ELSE Same /\ Err
    ELSE IF regs[r].frozen THEN Same /\ Err
    ELSE IF \E k \in NewNames(r, i): HasName(r, k) THEN
        \* a variable of that name was added by the user before: rejected; what is in front of it may stay
        /\ Err /\ UNCHANGED <<circs, active>>
        /\ \E m \in 0..(i + 1 - n):
             /\ \A k \in 1..m: ~HasName(r, n + k - 1)
             /\ m < i + 1 - n /\ (m > 0 => HasName(r, n + m))
             /\ vars' = vars \o [k \in 1..m |-> n + k - 1]
             /\ regs' = [regs EXCEPT ![r].items = @ \o [k \in 1..m |-> Len(vars) + k]]
    ELSE Grow(r, i) /\ Ret(Len(vars) + i + 1 - n)

\* adding a variable of one's own
AddVar(r, name) ==
    IF regs[r].frozen \/ HasName(r, name) THEN Same /\ Err
    ELSE /\ vars' = Append(vars, name)
         /\ regs' = [regs EXCEPT ![r].items = Append(@, Len(vars) + 1)]
         /\ UNCHANGED <<circs, active>> /\ Ok
Freeze(r) == regs' = [regs EXCEPT ![r].frozen = TRUE] /\ UNCHANGED <<vars, circs, active>> /\ Ok

\* ------------------------------------------------------------- circuits
Enter(c) == IF active # 0 \/ circs[c].locked THEN Same /\ Err
            ELSE active' = c /\ UNCHANGED <<vars, regs, circs>> /\ Ok
\* normally or through an exception
Exit == /\ active # 0
        /\ regs' = [regs EXCEPT ![circs[active].reg].frozen = TRUE]
        /\ circs' = [circs EXCEPT ![active].locked = TRUE]
        /\ active' = 0 /\ UNCHANGED vars /\ Ok
Lock(c) == circs' = [circs EXCEPT ![c].locked = TRUE] /\ UNCHANGED <<vars, regs, active>> /\ Ok
\* also the effect of resetting the circuit
Unlock(c) == /\ circs' = [circs EXCEPT ![c].locked = FALSE]
             /\ regs' = [regs EXCEPT ![circs[c].reg].frozen = FALSE]
             /\ UNCHANGED <<vars, active>> /\ Ok

Apply(e) ==
    CASE e.op = "new_reg" -> NewReg
      [] e.op = "new_circ" -> NewCirc
      [] e.op = "copy" -> Copy(e.r)
      [] e.op = "index" -> Index(e.r, e.i)
      [] e.op = "add" -> AddVar(e.r, e.name)
      [] e.op = "freeze" -> Freeze(e.r)
      [] e.op = "enter" -> Enter(e.c)
      [] e.op = "exit" -> Exit
      [] e.op = "lock" -> Lock(e.c)
      [] e.op \in {"unlock", "reset"} -> Unlock(e.c)

ObsReg(r) == [items |-> Items(r), names |-> Names(r), len |-> Len(Items(r)), frozen |-> regs[r].frozen,
              idx |-> [i \in 1..Len(Items(r)) |-> i - 1]]
Obs == [res |-> res, val |-> val,
        regs |-> [r \in 1..Len(regs) |-> ObsReg(r)],
        circs |-> [c \in 1..Len(circs) |-> [locked |-> circs[c].locked,
                                            num |-> Len(Items(circs[c].reg)),
                                            parametric |-> Items(circs[c].reg) # <<>>]],
        active |-> active]

ParOk == /\ \A r \in 1..Len(regs): \A i, j \in 1..Len(Items(r)): i # j => Names(r)[i] # Names(r)[j]
         /\ active # 0 => ~circs[active].locked \/ TRUE
IsPre(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s): s[i] = t[i]
\* variables are never renamed or reordered; a frozen register does not change
Stable == [][/\ IsPre(vars, vars')
             /\ \A r \in 1..Len(regs): IsPre(Items(r), regs'[r].items)
             /\ \A r \in 1..Len(regs): regs[r].frozen => regs'[r].items = Items(r)]_pvars
=============================================================================
