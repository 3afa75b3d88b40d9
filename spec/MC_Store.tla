------------------------------ MODULE MC_Store ------------------------------
(* Every history of literals handed to a graph store, up to a length.        *)
EXTENDS Store, FiniteSets

CONSTANTS MaxAdds, MaxReports

LOCAL Gr == INSTANCE Graph
LOCAL Lits == INSTANCE Literal

VARIABLES st, hist   \* hist: what was handed over and the verdict
vars == <<st, hist>>

a == <<65, FALSE>>
A == <<65, TRUE>>
b == <<66, FALSE>>
one == <<49, FALSE>>
Catalogue == {<<a>>, <<A>>, <<a, b>>, <<A, one>>, <<A, b>>, <<one>>}
Facts == [id : {"1", "2"}, h : BOOLEAN, som : BOOLEAN, quiet : BOOLEAN]
Lim == [shortcut |-> TRUE, reports |-> MaxReports,
        sw |-> [enabled |-> TRUE, maxPatterns |-> 9, maxLiterals |-> MaxAdds, largest |-> 1, maxNodes |-> 9]]
X(f, i) == [id |-> f.id, h |-> f.h, som |-> f.som, quiet |-> f.quiet, i |-> i]

Init == st = NewStore(1, Lim) /\ hist = <<>>
Room == Len(hist) < MaxAdds /\ \A k \in DOMAIN hist : hist[k].out \in {"left", "taken", "offered"}
Note(kind, lit, x, out) == hist' = Append(hist, [kind |-> kind, lit |-> lit, x |-> x, out |-> out])

AddOne == Room /\ \E lit \in Catalogue, f \in Facts :
    LET x == X(f, Len(hist))
        v == Verdict(st, lit, x, Lim)
    IN /\ ~(f.som /\ f.h)
       /\ Note("lit", lit, x, v)
       /\ st' = IF v = "taken" THEN Take(st, lit, x, Lim) ELSE st

GraphFacts == [id : {"1"}, h : BOOLEAN, som : BOOLEAN, quiet : {FALSE}]
AddGraph == Room /\ \E f \in GraphFacts :
    LET x == X(f, Len(hist))
        v == GraphVerdict(st, x)
    IN /\ ~(f.som /\ f.h)
       /\ Note("graph", <<>>, x, v)
       /\ st' = IF v = "taken" THEN TakeGraph(st, x) ELSE st

(* Graphs offered to the small-buffer engine: one that matches something, at *)
(* once or with the first report, and one that matches nothing.              *)
One == Gr!AddVertex(Gr!NewGraph)
Ending == Gr!AddEdge(One, 4, Gr!Accept)
Offered == [plain |-> One, eod |-> Gr!AddEdge(One, 4, Gr!AcceptEod), report |-> Gr!AddReport(Ending, 4, 0),
            loose |-> Gr!AddReport(One, 4, 0), nothing |-> Gr!AddEdge(One, Gr!StartDs, Gr!AcceptEod)]
Offer == Room /\ \E name \in DOMAIN Offered, som \in BOOLEAN :
    /\ name \in {"report", "loose"} => Count(st.rm.reports) > 0
    /\ Note("offer", <<name>>, [som |-> som, poisoned |-> st.sw.poisoned], "offered")
    /\ st' = OfferGraph(st, Offered[name], som)
(* The least length that the first report asks for.                          *)
Lengthy == WithLeastLength(EndReport("3", "0", NoKey, FALSE), "7")
InternOne == Room /\ st.rm.reports = <<>> /\
    /\ Note("intern", <<>>, [som |-> FALSE], "offered")
    /\ st' = [st EXCEPT !.rm = Intern(@, Lengthy)]

Next == AddOne \/ AddGraph \/ Offer \/ InternOne
Spec == Init /\ [][Next]_vars

Taken == {k \in DOMAIN hist : hist[k].kind = "lit" /\ hist[k].out = "taken"}
Graphs == {k \in DOMAIN hist : hist[k].kind = "graph" /\ hist[k].out = "taken"}
Offers == {k \in DOMAIN hist : hist[k].kind = "offer"}
Interned1 == {k \in DOMAIN hist : hist[k].kind = "intern"}
HasCased(lit) == \E i \in DOMAIN lit : lit[i][1] \in 65..90 /\ ~lit[i][2]
HasCaseless(lit) == \E i \in DOMAIN lit : lit[i][2]
(* A literal is left for the graph exactly when letters of both kinds occur. *)
LeftOk == \A k \in {m \in DOMAIN hist : hist[m].kind = "lit"} :
    (hist[k].out = "left") = (HasCased(hist[k].lit) /\ HasCaseless(hist[k].lit))
AgreeOk ==
    /\ \A k, m \in Taken \cup Graphs : hist[k].x.id = hist[m].x.id => hist[k].x.h = hist[m].x.h
    /\ \A k \in DOMAIN hist : hist[k].out = "conflict" =>
          \E m \in Taken \cup Graphs : hist[m].x.id = hist[k].x.id /\ hist[m].x.h # hist[k].x.h
    /\ DOMAIN st.rm.ext = {hist[k].x.id : k \in Taken \cup Graphs \cup {m \in DOMAIN hist : hist[m].out = "conflict"}}
(* What distinguishes two reports.                                           *)
What(k) == IF hist[k].x.som THEN <<hist[k].x.id, "som", Len(hist[k].lit)>>
           ELSE <<hist[k].x.id, IF hist[k].x.h THEN "single" ELSE "every", hist[k].x.quiet>>
ReportsOk == Count(st.rm.reports) = Cardinality({What(k) : k \in Taken}) + Cardinality(Interned1) /\ Count(st.rm.reports) <= MaxReports
WidthOk == IF Taken = {} THEN st.minw = NoWidth
           ELSE st.minw = Min({Len(hist[k].lit) : k \in Taken})
HandedOk ==
    /\ st.handed.n = Cardinality(Taken)
    /\ Taken # {} =>
          LET k == Max(Taken)
              r == ReportAt(st.rm, st.handed.rep)
          IN /\ st.handed.lit = hist[k].lit
             /\ r[2] = hist[k].x.id
             /\ ~Lits!Mixed(st.handed.lit)
SomOk == st.som = (\E k \in Taken \cup Graphs : hist[k].x.som)
(* The engine has been given up exactly if it met a graph it knows no way    *)
(* with, or more than its limits allow; and for good.                        *)
Hopeless(k) ==
    \/ hist[k].x.som
    \/ hist[k].lit = <<"nothing">>
    \/ hist[k].lit = <<"report">> /\ Interned1 # {}
GivenUpOk ==
    /\ st.sw.poisoned = (\E k \in Offers : Hopeless(k))
    /\ \A k \in Offers : hist[k].x.poisoned = (\E m \in Offers : m < k /\ Hopeless(m))
(* Literals that came before it was.                                         *)
Seen == {k \in Taken : \A m \in Offers : m < k => ~Hopeless(m)}
TablesOk ==
    LET short == {k \in Seen : Len(hist[k].lit) <= 1}
        tab(nc) == {Spelling(hist[k].lit) : k \in {m \in short : HasCaseless(hist[m].lit) = nc}}
    IN DOMAIN st.sw.cased.lits = tab(FALSE) /\ DOMAIN st.sw.nocase.lits = tab(TRUE)
=============================================================================
