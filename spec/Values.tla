------------------------------- MODULE Values -------------------------------
(* Bits and variables (dwave.gate.primitives).  A bit is unset (-1), 0 or 1; a variable holds nothing (0)  *)
(* or one of the values of a pool, given by its position.  PoolClass says which values of the pool compare *)
(* equal (0, 0.0 and False do).                                                                            *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES bits,   \* Seq of [value: -1..1, label: 0..2]
          vars,   \* Seq of [name: 1..3, value: 0..Len(PoolClass)]
          res
valvars == <<bits, vars, res>>

\* the pool: 0, 0.0, False, 1, True, 1.0, 0.5, -2, 1j, "a", ""
PoolClass == <<1, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7>>
Pool == 1..Len(PoolClass)

ValInit == bits = <<>> /\ vars = <<>> /\ res = "ok"
Ok == res' = "ok"
Err == res' = "err"

NewBit == bits' = Append(bits, [value |-> -1, label |-> 0]) /\ UNCHANGED vars /\ Ok
NewVar(n) == vars' = Append(vars, [name |-> n, value |-> 0]) /\ UNCHANGED bits /\ Ok
\* t: the truth of the value given (2: it has none, asking for it is an error)
SetBit(b, t, force) ==
    /\ UNCHANGED vars
    /\ IF t = 2 \/ (bits[b].value # -1 /\ ~force) THEN UNCHANGED bits /\ Err
       ELSE bits' = [bits EXCEPT ![b].value = t] /\ Ok
ResetBit(b) == bits' = [bits EXCEPT ![b].value = -1] /\ UNCHANGED vars /\ Ok
LabelBit(b, k) == bits' = [bits EXCEPT ![b].label = k] /\ UNCHANGED vars /\ Ok
SetVar(v, x) == vars' = [vars EXCEPT ![v].value = x] /\ UNCHANGED bits /\ Ok
ResetVar(v) == vars' = [vars EXCEPT ![v].value = 0] /\ UNCHANGED bits /\ Ok

Apply(e) ==
    CASE e.op = "new_bit" -> NewBit
      [] e.op = "new_var" -> NewVar(e.n)
      [] e.op = "set_bit" -> SetBit(e.b, e.t, e.force)
      [] e.op = "reset_bit" -> ResetBit(e.b)
      [] e.op = "label_bit" -> LabelBit(e.b, e.k)
      [] e.op = "set_var" -> SetVar(e.v, e.x)
      [] e.op = "reset_var" -> ResetVar(e.v)

\* value: what .value gives; truth: bool(); eq0/eq1: comparison with the integers; none: with None (also without a value); same: with all bits
ObsBit(b) == [value |-> bits[b].value, truth |-> bits[b].value # 0, label |-> bits[b].label,
              eq0 |-> bits[b].value = 0, eq1 |-> bits[b].value = 1, none |-> FALSE,
              same |-> [k \in 1..Len(bits) |-> k = b],
              id |-> b, hash |-> TRUE]
ObsVar(v) == [value |-> vars[v].value, name |-> vars[v].name,
              eq |-> [x \in Pool |-> vars[v].value # 0 /\ PoolClass[x] = PoolClass[vars[v].value]],
              none |-> FALSE,
              same |-> [k \in 1..Len(vars) |-> vars[k].name = vars[v].name],
              hash |-> TRUE]
Obs == [res |-> res, bits |-> [b \in 1..Len(bits) |-> ObsBit(b)], vars |-> [v \in 1..Len(vars) |-> ObsVar(v)]]

TypeOk == /\ \A b \in 1..Len(bits): bits[b].value \in -1..1
          /\ \A v \in 1..Len(vars): vars[v].value \in 0..Len(PoolClass)
\* a set bit only changes through a forced set or a reset; calls change one object at most
OneAtATime == [][/\ Cardinality({b \in 1..Len(bits): bits'[b] # bits[b]}) <= 1
                 /\ Cardinality({v \in 1..Len(vars): vars'[v] # vars[v]}) <= 1
                 /\ (res' = "err" => bits' = bits /\ vars' = vars)]_valvars
=============================================================================
