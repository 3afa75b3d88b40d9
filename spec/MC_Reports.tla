----------------------------- MODULE MC_Reports -----------------------------
(* Every history of operations on a report manager, up to a length, checked  *)
(* against what the history says.                                            *)
EXTENDS Reports, FiniteSets

CONSTANTS Ids, MaxOps, Limit

(* hist: successful operations in order: <<"intern", r>>, <<"register", id,  *)
(* h, i>>, <<"key", id>>; given: numbers that interning answered with.       *)
VARIABLES rm, hist, given
vars == <<rm, hist, given>>

ReportSet == {EndReport(id, adj, k, q) : id \in Ids, adj \in {"0", "1"}, k \in {NoKey, "0"}, q \in BOOLEAN}
             \cup {SomReport(id, "0", d) : id \in Ids, d \in {"0", "1"}}

Init == rm = NewManager /\ hist = <<>> /\ given = <<>>
Room == Len(hist) < MaxOps
DoIntern == Room /\ \E r \in ReportSet :
    /\ ~Refused(rm, r, Limit)
    /\ rm' = Intern(rm, r)
    /\ hist' = Append(hist, <<"intern", r>>)
    /\ given' = Append(given, InternalId(rm', r))
DoRegister == Room /\ \E id \in Ids, h \in BOOLEAN :
    /\ ~Conflicts(rm, id, h)
    /\ rm' = Register(rm, id, h, Len(hist))
    /\ hist' = Append(hist, <<"register", id, h, Len(hist)>>)
    /\ UNCHANGED given
DoKey == Room /\ \E id \in Ids :
    /\ rm' = Exhaustible(rm, id)
    /\ hist' = Append(hist, <<"key", id>>)
    /\ UNCHANGED given
Next == DoIntern \/ DoRegister \/ DoKey
Spec == Init /\ [][Next]_vars

Ops(what) == SelectSeq(hist, LAMBDA o : o[1] = what)
DistinctIn(ops) == {ops[i][2] : i \in DOMAIN ops}
FirstOf(ops, x) == Min({i \in DOMAIN ops : ops[i][2] = x})
(* x came before y.                                                          *)
Order(ops) == {<<x, y>> \in DistinctIn(ops) \X DistinctIn(ops) : FirstOf(ops, x) < FirstOf(ops, y)}

(* Same report, same number; different reports, different numbers; dense     *)
(* from 0 in order of first use; the number leads back to the report.        *)
IdentityOk ==
    LET ops == Ops("intern") IN
    /\ Len(given) = Len(ops)
    /\ \A i, j \in DOMAIN ops : (given[i] = given[j]) = (ops[i][2] = ops[j][2])
    /\ {given[i] : i \in DOMAIN given} = 0..(Cardinality(DistinctIn(ops)) - 1)
    /\ \A i \in DOMAIN ops : ReportAt(rm, given[i]) = ops[i][2]
    /\ \A i, j \in DOMAIN ops : (<<ops[i][2], ops[j][2]>> \in Order(ops)) = (given[i] < given[j])
    /\ Count(rm.reports) = Cardinality(DistinctIn(ops))
LimitOk ==
    /\ Count(rm.reports) <= Limit
    /\ \A r \in DistinctIn(Ops("intern")) : ~Refused(rm, r, Limit)
    /\ Count(rm.reports) = Limit => \A r \in ReportSet \ DistinctIn(Ops("intern")) : Refused(rm, r, Limit)
KeysOk ==
    LET ops == Ops("key") IN
    /\ Count(rm.exhaust) = Cardinality(DistinctIn(ops))
    /\ \A x, y \in DistinctIn(ops) :
          /\ (ExhaustionKey(rm, x) = ExhaustionKey(rm, y)) = (x = y)
          /\ (<<x, y>> \in Order(ops)) = (ExhaustionKey(rm, x) < ExhaustionKey(rm, y))
RegisterOk ==
    LET ops == Ops("register") IN
    /\ \A i, j \in DOMAIN ops : ops[i][2] = ops[j][2] => ops[i][3] = ops[j][3]
    /\ rm.gex = (\A i \in DOMAIN ops : ops[i][3])
    /\ \A x \in DistinctIn(ops) : Entry(rm, x) = <<x, ops[FirstOf(ops, x)][3], ops[FirstOf(ops, x)][4]>>
    /\ \A id \in Ids, h \in BOOLEAN :
          Conflicts(rm, id, h) = (\E i \in DOMAIN ops : ops[i][2] = id /\ ops[i][3] # h)
Keeps == [][/\ Extends(rm.reports, rm'.reports) /\ Extends(rm.exhaust, rm'.exhaust)
            /\ Extends(rm.ext, rm'.ext) /\ (rm'.gex => rm.gex)]_vars
=============================================================================
