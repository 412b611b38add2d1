-------------------------------- MODULE Gates --------------------------------
(* The life of operations whose matrices are read: classes and instances, with values or variables as      *)
(* parameters; matrices that were handed out are written to.  The matrix of an operation is PMatrix(g) at  *)
(* its parameters, whatever happened before; it is not there while parameters are missing.                 *)
EXTENDS Poly

VARIABLES objs,    \* Seq of [g, par: "none"/"values"/"variables", p: position of the parameters used]
          res
gvars == <<objs, res>>
GInit == objs = <<>> /\ res = "ok"
Ok == res' = "ok"

Has(g) == IF PParams(g) = 0 THEN "none" ELSE "values"
\* an instance; with its qubits or without
Create(g, p) == objs' = Append(objs, [g |-> g, par |-> Has(g), p |-> IF PParams(g) = 0 THEN 0 ELSE p]) /\ Ok
CreateVar(g) == objs' = Append(objs, [g |-> g, par |-> "variables", p |-> 0]) /\ Ok
\* evaluating variables, in a new operation or in place
Eval(o, p, inplace) ==
    LET e == [objs[o] EXCEPT !.par = "values", !.p = p] IN
    IF objs[o].par # "variables" THEN
        (IF inplace THEN UNCHANGED objs ELSE objs' = Append(objs, objs[o])) /\ Ok
    ELSE (IF inplace THEN objs' = [objs EXCEPT ![o] = e] ELSE objs' = Append(objs, e)) /\ Ok
\* using it again makes another one
Again(o) == objs' = Append(objs, objs[o]) /\ Ok
\* writing to a matrix that was read (from an instance or its class)
Scribble(o, onclass) == UNCHANGED objs /\ Ok

\* a matrix (of an instance or a class) cannot be replaced
Assign(o) == UNCHANGED objs /\ res' = "err"

\* the caller replaces the entries of the list of parameters
SetParam(o, p) == /\ objs' = [objs EXCEPT ![o].par = "values", ![o].p = p] /\ Ok

\* a gate's decomposition: gates that, applied in order (parameters taken in order), are the gate up to a phase
RECURSIVE Product(_, _, _)
WPow(k) == LET u == [i \in 1..4 |-> IF i = (k % 4) + 1 THEN 1 ELSE 0] IN IF k < 4 THEN u ELSE RNeg(u)
Product(ds, i, j) ==
    IF i > Len(ds) THEN Eye(2)
    ELSE LET rot == ds[i] \in {"RX", "RY", "RZ"}
             A == IF rot THEN Rot(CASE ds[i] = "RX" -> MX [] ds[i] = "RY" -> MY [] ds[i] = "RZ" -> MZ, j) ELSE SimpleMatrix(ds[i])
         IN MMul(Product(ds, i + 1, IF rot THEN j + 1 ELSE j), A)
RotationsIn(ds) == Cardinality({i \in 1..Len(ds): ds[i] \in {"RX", "RY", "RZ"}})
Composes(ds, g) == /\ \A i \in 1..Len(ds): ds[i] \in PGates1 \ {"Rotation"}
                   /\ RotationsIn(ds) = PParams(g)
                   /\ LET A == Product(ds, 1, 1) IN \E k \in 0..7: Same(MScale(WPow(k), A), PMatrix(g))
Decompose(g, ds) == UNCHANGED objs /\ res' = (IF ds = <<>> \/ Composes(ds, g) THEN "ok" ELSE "err")

Apply(e) ==
    CASE e.op = "create" -> Create(e.g, e.p)
      [] e.op = "create_var" -> CreateVar(e.g)
      [] e.op = "eval" -> Eval(e.o, e.p, e.inplace)
      [] e.op = "again" -> Again(e.o)
      [] e.op = "setparam" -> SetParam(e.o, e.p)
      [] e.op = "decompose" -> Decompose(e.g, e.ds)
      [] e.op = "assign" -> Assign(e.o)
      [] e.op = "scribble" -> Scribble(e.o, e.cls)

\* which matrix an operation and its class report: that of g at the parameters p ("is" lists them), or none
Obs == [res |-> res,
        objs |-> [o \in 1..Len(objs) |->
            [g |-> objs[o].g,
             has |-> objs[o].par # "variables",
             at |-> IF objs[o].par = "values" THEN objs[o].p ELSE 0,
             right |-> objs[o].par # "variables",
             cls |-> PParams(objs[o].g) = 0]]]
=============================================================================
