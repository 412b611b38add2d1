-------------------------------- MODULE Reg --------------------------------
(***************************************************************************)
(* Registers of dwave.gate: a heap of ordered collections of distinct      *)
(* items.  Items are abstract identities (positive integers); the integer  *)
(* k as an item is represented by NumBase + k, all other items are below   *)
(* NumBase.  One action per public call; a rejected call is an action of   *)
(* its own that sets res to "err".                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NumBase == 1000
None == 99999

VARIABLES regs,   \* sequence of [items: Seq(item), frozen: BOOLEAN], in order of creation
          res,    \* outcome of the last call: "ok" or "err"
          val     \* the item it returned, 0 if none

regvars == <<regs, res, val>>

RegInit == regs = <<>> /\ res = "ok" /\ val = 0
Ok == res' = "ok" /\ val' = 0
Err == res' = "err" /\ val' = 0
Ret(v) == res' = "ok" /\ val' = v

Ids == 1..Len(regs)
Items(r) == regs[r].items
Has(s, x) == \E i \in 1..Len(s): s[i] = x
IndexOf(s, x) == IF Has(s, x) THEN (CHOOSE i \in 1..Len(s): s[i] = x) - 1 ELSE -1
Distinct(s) == \A i, j \in 1..Len(s): i # j => s[i] # s[j]
Overlap(s, t) == \E i \in 1..Len(t): Has(s, t[i])

\* s followed by the items of t that are not there yet (constructor semantics)
RECURSIVE Merge(_, _)
Merge(s, t) == IF t = <<>> THEN s
               ELSE Merge(IF Has(s, Head(t)) THEN s ELSE Append(s, Head(t)), Tail(t))

NewReg(s) == /\ regs' = Append(regs, [items |-> s, frozen |-> FALSE])
             /\ Ok
Reject == regs' = regs /\ Err
SetItems(r, s) == regs' = [regs EXCEPT ![r].items = s]

\* ---------------------------------------------------------------- actions
Create(xs) == NewReg(Merge(<<>>, xs))
CreateFrom(r) == NewReg(Items(r))
Copy(r) == NewReg(Items(r))

AddOk(r, xs) == /\ ~regs[r].frozen
                /\ Distinct(xs) /\ ~Overlap(Items(r), xs)
                /\ SetItems(r, Items(r) \o xs)
                /\ Ok
AddFrozen(r, xs) == regs[r].frozen /\ Reject
\* an item that is already present is rejected; the items in front of it may or may not stay
AddDuplicate(r, xs) ==
    /\ ~regs[r].frozen
    /\ ~(Distinct(xs) /\ ~Overlap(Items(r), xs))
    /\ Err
    /\ \/ regs' = regs
       \/ \E k \in 0..Len(xs):
             LET p == SubSeq(xs, 1, k) IN
             /\ Distinct(p) /\ ~Overlap(Items(r), p)
             /\ (k < Len(xs) => Has(Items(r) \o p, xs[k + 1]))
             /\ SetItems(r, Items(r) \o p)
Add(r, xs) == AddOk(r, xs) \/ AddFrozen(r, xs) \/ AddDuplicate(r, xs)
AddReg(r, s) == Add(r, Items(s))

PlusOk(r, s) == ~Overlap(Items(r), Items(s)) /\ NewReg(Items(r) \o Items(s))
PlusErr(r, s) == Overlap(Items(r), Items(s)) /\ Reject
Plus(r, s) == PlusOk(r, s) \/ PlusErr(r, s)

\* Python slice semantics; None is encoded as 99999
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SliceSeq(s, a, b, c) ==
    LET n == Len(s)
        st == IF c = None THEN 1 ELSE c
        lo == IF st > 0 THEN 0 ELSE -1
        hi == IF st > 0 THEN n ELSE n - 1
        norm(x) == Clip(IF x < 0 THEN x + n ELSE x, lo, hi)
        i0 == IF a = None THEN (IF st > 0 THEN lo ELSE hi) ELSE norm(a)
        i1 == IF b = None THEN (IF st > 0 THEN hi ELSE lo) ELSE norm(b)
        cnt == IF st > 0 THEN (IF i0 < i1 THEN (i1 - i0 - 1) \div st + 1 ELSE 0)
                         ELSE (IF i1 < i0 THEN (i0 - i1 - 1) \div (-st) + 1 ELSE 0)
    IN [k \in 1..cnt |-> s[i0 + (k - 1) * st + 1]]
Slice(r, a, b, c) == NewReg(SliceSeq(Items(r), a, b, c))

Freeze(r) == /\ regs' = [regs EXCEPT ![r].frozen = TRUE]
             /\ Ok

\* indexing: a lookup that fails is an error; the register never changes
At(r, i) == /\ regs' = regs
            /\ LET n == Len(Items(r)) IN
               IF i >= 0 /\ i < n THEN Ret(Items(r)[i + 1])
               ELSE IF i < 0 /\ i >= -n THEN Ret(Items(r)[n + i + 1])
               ELSE Err

\* -------------------------------------------------- maintenance operations
Pop(r) == IF Items(r) = <<>> THEN Reject
          ELSE /\ SetItems(r, SubSeq(Items(r), 1, Len(Items(r)) - 1))
               /\ Ret(Last(Items(r)))
RemoveItem(r, x) ==
    IF ~Has(Items(r), x) THEN Reject
    ELSE /\ SetItems(r, SelectSeq(Items(r), LAMBDA y: y # x))
         /\ Ok
Clear(r) == SetItems(r, <<>>) /\ Ok
\* append without an item: the new item is the number of items if that integer is not in use,
\* otherwise the lowest integer that is not in use
AppendNew(r) ==
    LET s == Items(r)
        n == Len(s)
        v == IF ~Has(s, NumBase + n) THEN n
             ELSE CHOOSE k \in 0..n: ~Has(s, NumBase + k) /\ \A j \in 0..(k - 1): Has(s, NumBase + j)
    IN SetItems(r, Append(s, NumBase + v)) /\ Ret(NumBase + v)
\* olds/news: sequences of the same length, olds in the register and distinct
Relabel(r, olds, news) ==
    LET s == Items(r)
        map(x) == IF Has(olds, x) THEN news[IndexOf(olds, x) + 1] ELSE x
        t == [i \in 1..Len(s) |-> map(s[i])]
    IN IF Distinct(t) THEN SetItems(r, t) /\ Ok ELSE Reject
RelabelInts(r) == /\ SetItems(r, [i \in 1..Len(Items(r)) |-> NumBase + i - 1])
                  /\ Ok

\* ---------------------------------------------------- parameter registers
\* the variable with the number k is the item VarBase + k; indexing creates what is missing
VarBase == 2000
RECURSIVE Grown(_, _)
Grown(s, n) == IF Len(s) >= n THEN s ELSE Grown(Append(s, VarBase + Len(s)), n)
IndexParamOk(r, i) == /\ i >= 0 /\ ~regs[r].frozen
                      /\ LET s == Grown(Items(r), i + 1) IN SetItems(r, s) /\ Ret(s[i + 1])
IndexParam(r, i) ==
    IF i < 0 \/ regs[r].frozen \/ i < Len(Items(r)) THEN At(r, i) ELSE IndexParamOk(r, i)
Unfreeze(r) == /\ regs' = [regs EXCEPT ![r].frozen = FALSE]
               /\ Ok

\* ------------------------------------------------------------ observations
\* everything a user can see of register g, given the universe of items of the run
ObsReg(g, univ) ==
    LET s == g.items n == Len(s) IN
    [items |-> s,
     len |-> n,
     at |-> s,
     neg |-> Reverse(s),
     rev |-> Reverse(s),
     idx |-> [k \in 1..Len(univ) |-> IndexOf(s, univ[k])],
     has |-> [k \in 1..Len(univ) |-> Has(s, univ[k])],
     frozen |-> g.frozen]
Obs(gs, univ) == [r \in 1..Len(gs) |-> ObsReg(gs[r], univ)]

\* --------------------------------------------------------------- properties
RegDistinct == \A r \in Ids: Distinct(Items(r))
RegLookup == \A r \in Ids: \A i \in 1..Len(Items(r)): IndexOf(Items(r), Items(r)[i]) = i - 1
\* a register once created stays; a frozen one never changes (maintenance aside)
RegFrozenStays == [][\A r \in Ids: regs[r].frozen => regs'[r].frozen]_regvars
RegIsolated == [][/\ Len(regs') >= Len(regs)
                  /\ Cardinality({r \in Ids: regs'[r] # regs[r]}) <= 1
                  /\ (Len(regs') > Len(regs) => \A r \in Ids: regs'[r] = regs[r])]_regvars
=============================================================================
