--------------------------------- MODULE Ids ---------------------------------
(* Identification numbers (tools/counters.py) and the identity of qubits and bits that follows them.       *)
(* Numbers are abstract (interned) integers together with their length; which number a call hands out is   *)
(* up to the implementation (a parameter of the action), the constraints on it are the specification.     *)
EXTENDS Integers, Sequences, FiniteSets

Alpha == 36            \* size of the alphabet: a number is a combination of distinct characters
Inf == 1000000000

\* how many numbers of length n or longer exist (Inf: more than any history uses)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE (Binom(n, k - 1) * (n - k + 1)) \div k
RECURSIVE From(_)
From(k) == IF k > Alpha THEN 0 ELSE Binom(Alpha, Alpha - k) + From(k + 1)
Total(k) == IF k > Alpha THEN 0 ELSE IF k < 31 THEN Inf ELSE From(k)

VARIABLES len,     \* configured length
          batch,   \* configured batch size
          made,    \* numbers generated since the last reset
          pool,    \* numbers generated and not handed out
          used,    \* numbers handed out since the last reset
          objs,    \* Seq of [kind: "q"/"b", id: number, src: object it is a copy of or 0]
          res
idvars == <<len, batch, made, pool, used, objs, res>>

Least(a, b) == IF a < b THEN a ELSE b
IdInit == len = 4 /\ batch = 1000 /\ made = 0 /\ pool = 0 /\ used = {} /\ objs = <<>> /\ res = "ok"
Ok == res' = "ok"
Err == res' = "err"

\* generating a batch: what is left is generated if it is less than a batch; with nothing left to
\* generate nor to hand out it is an error
Refresh ==
    /\ UNCHANGED <<len, batch, used, objs>>
    /\ LET n == Least(batch, Total(len) - made) IN
       IF n = 0 /\ pool = 0 THEN UNCHANGED <<made, pool>> /\ Err
       ELSE made' = made + n /\ pool' = pool + n /\ Ok

\* drawing k numbers one by one: state after it, or an error if they run out (then all were handed out)
\* (batches are generated only when nothing is left)
Draw(m, p, k) == \* <<made, pool, how many could not be drawn>>
    LET rest == Total(len) - m
        d == Least(k, p + rest)
        n == IF k <= p THEN 0 ELSE Least(rest, batch * ((k - p + batch - 1) \div batch))
    IN <<m + n, p + n - d, k - d>>

\* ids: Seq of [id, len] handed out by (up to) k calls; ends early iff there are no more
Next1(k, ids) ==
    LET d == Draw(made, pool, k) new == {ids[i].id : i \in 1..Len(ids)} IN
    /\ UNCHANGED <<len, batch, objs>>
    /\ made' = d[1] /\ pool' = d[2]
    /\ Len(ids) = k - d[3]
    /\ Cardinality(new) = Len(ids) /\ new \cap used = {}
    /\ \A i \in 1..Len(ids): ids[i].len >= len /\ ids[i].ok
    /\ used' = used \cup new
    /\ IF d[3] = 0 THEN Ok ELSE Err

\* creating an object draws one number
New(kind, id) ==
    LET d == Draw(made, pool, 1) IN
    IF d[3] > 0 THEN UNCHANGED <<len, batch, used, objs>> /\ made' = d[1] /\ pool' = d[2] /\ Err
    ELSE /\ made' = d[1] /\ pool' = d[2]
         /\ id.id \notin used /\ id.len >= len /\ id.ok
         /\ used' = used \cup {id.id}
         /\ objs' = Append(objs, [kind |-> kind, id |-> id.id])
         /\ UNCHANGED <<len, batch>> /\ Ok
\* a copy has the number of the original; labels and values have nothing to do with it
Copy(o) == objs' = Append(objs, objs[o]) /\ UNCHANGED <<len, batch, made, pool, used>> /\ Ok
Touch(o) == UNCHANGED <<len, batch, made, pool, used, objs>> /\ Ok

\* 0 stands for "not given"
Reset(l, b) == /\ len' = (IF l = 0 THEN 4 ELSE l) /\ batch' = (IF b = 0 THEN 1000 ELSE b)
               /\ made' = 0 /\ pool' = 0 /\ used' = {} /\ UNCHANGED objs /\ Ok

Apply(e) ==
    CASE e.op = "reset" -> Reset(e.l, e.b)
      [] e.op = "refresh" -> Refresh
      [] e.op = "next" -> Next1(e.k, e.ids)
      [] e.op = "new" -> New(e.kind, e.id)
      [] e.op = "copy" -> Copy(e.o)
      [] e.op = "touch" -> Touch(e.o)

Same(a, b) == objs[a].kind = objs[b].kind /\ objs[a].id = objs[b].id
Obs == [res |-> res,
        eq |-> [a \in 1..Len(objs) |-> [b \in 1..Len(objs) |-> Same(a, b)]],
        \* a list, dictionary or set finds an object exactly under an equal one
        find |-> [a \in 1..Len(objs) |-> CHOOSE b \in 1..Len(objs): Same(a, b) /\ \A c \in 1..(b - 1): ~Same(a, c)]]

IdOk == /\ made <= Total(len) /\ pool <= made
        /\ Cardinality(used) = made - pool
=============================================================================
