---------------------------- MODULE TraceLiteral ----------------------------
(* Recorded literals: built by pushes, then compared pairwise.               *)
EXTENDS Literal, TraceBase

VARIABLE pool     \* literals built since the last comparison

TraceInit == l = 1 /\ pool = <<>>

TBuild ==
    /\ IsEvent("build")
    /\ LET lit == Of(Event.pushes)
           n == Len(lit) IN
       /\ Same("C17", "characters", Event.items, lit)
       /\ Same("C17", "characters by into_iter", Event.items2, lit)
       /\ Same("C17", "length", Event.len, n)
       /\ Same("C17", "is empty", Event.empty, n = 0)
       /\ Same("C17", "any caseless", Event.anync, AnyCaseless(lit))
       /\ Same("C17", "mixed sensitivity", Event.mixed, Mixed(lit))
       /\ \A p \in ToSetOf(Event.parts) :
             Same("C17", <<"mixed sensitivity of a part", p[1], p[2]>>, p[3], Mixed(SubSeq(lit, p[1] + 1, p[2])))
       /\ pool' = Append(pool, lit)

TCompare ==
    /\ IsEvent("compare")
    /\ LET D == DOMAIN pool IN
       /\ Len(Event.cmp) = Len(pool)
       /\ \A i, j \in D :
             /\ Same("C17", <<"==", pool[i], pool[j]>>, Event.eq[i][j], pool[i] = pool[j])
             /\ Same("C17", <<"!=", pool[i], pool[j]>>, Event.ne[i][j], pool[i] # pool[j])
             /\ Same("C17", <<"cmp agrees with ==", pool[i], pool[j]>>, Event.cmp[i][j] = 0, pool[i] = pool[j])
             /\ Same("C17", <<"partial_cmp", pool[i], pool[j]>>, Event.pcmp[i][j], Event.cmp[i][j])
       /\ Holds("C17", "total order", TotalOrder(pool, Event.cmp), Event.cmp)
    /\ pool' = <<>>

(* What was built is not compared.                                           *)
TForget ==
    /\ IsEvent("forget")
    /\ pool' = <<>>

TPanic ==
    /\ IsEvent("panic")
    /\ Wrong({"C17"}, "panic", Event.msg, "an answer")
    /\ UNCHANGED pool

TraceNext == TBuild \/ TCompare \/ TForget \/ TPanic
TraceSpec == TraceInit /\ [][TraceNext]_<<l, pool>>
=============================================================================
