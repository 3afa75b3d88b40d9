----------------------------- MODULE TraceParse -----------------------------
(* Recorded readings of single patterns against Pattern (and the graph built *)
(* from each against the one-position-per-literal rule). One event is one    *)
(* pattern: all its tokens are read in one step of the trace.                *)
EXTENDS Tree, TraceBase

VARIABLE m     \* the reader after the last pattern

TraceInit == l = 1 /\ m = Start(0)

(* "\E x \in {e} : F" is LET x == e IN F; but TLC then evaluates e once, not  *)
(* at every use of x.                                                        *)

RangesOf(rs) == UNION {(rs[i][1])..(rs[i][2]) : i \in DOMAIN rs}
Upper(S) == {ToUpper(c) : c \in S}
SamePoints(p, what, obs, exp) ==
    On(p) =>
        \E observed \in {obs}, expected \in {exp} :
            IF Len(observed) # Len(expected) THEN Same(p, what, observed, expected)
            ELSE \A i \in DOMAIN observed : Same(p, <<what, i>>, observed[i], expected[i])

OpensLikeVerb(cs) == Len(cs) >= 2 /\ cs[1] = Open /\ cs[2] = Star

(* Failure of the pattern, the length limit not being checked here. That     *)
(* flags do not go together may be noticed here or later in the compile      *)
(* (TraceSession sees that it is).                                           *)
Later(e) == QuietSom(e.fl) /\ IF e.out = "err" THEN e.cause # "quietsom" ELSE TRUE
Expected(e) == PatternFailure(e.pat, IF Later(e) THEN 0 ELSE e.fl)

TreeSame(e, mm) ==
    \E lits \in {Literals(e.pat)},
       md \in {Mode(e.fl, ReadVerb(e.pat))},
       cls \in {[i \in DOMAIN e.classes |-> RangesOf(e.classes[i])]} :
    /\ e.deep =>
         /\ Same("C04", "traversal", e.visits, FrameItem(mm.cur))
         /\ Same("C04", "named groups", e.named, FALSE)
    /\ (On("C04") /\ e.visits # <<>>) =>
         Same("C04", "traversal in order", Traverses(e.visits, Body(e.pat)), TRUE)
    /\ SamePoints("C04", "literal characters", [i \in DOMAIN cls |-> Upper(cls[i])],
                  [i \in DOMAIN lits |-> {ToUpper(lits[i])}])
    /\ Len(cls) = Len(lits) =>
         SamePoints("C05", "class of literal", cls, [i \in DOMAIN lits |-> CharClass(lits[i], md.caseless)])
    /\ Same("C06", "mode", e.mode, <<md.caseless, md.dotall, md.ignorespace, md.multiline, md.ucp, md.utf8>>)
    /\ Same("C06", "mode of the compile", e.utf8, md.utf8)
    /\ OpensLikeVerb(e.pat) => Same("C06", "literals after the verb", Len(cls), Len(lits))
    (* Routing. The strings must be exact; the empty string is no string.    *)
    /\ Same("C07", "is a string", e.islit /\ e.lit # <<>>, IsPureLiteral(e.pat))
    /\ IsPureLiteral(e.pat) => Same("C07", "string", e.lit, LiteralOf(e.pat, e.fl))
    /\ Same("C08", "match id", e.id2, e.id)
    /\ Same("C08", "quiet", e.quiet, HasFlag(e.fl, "quiet"))
    /\ Same("C09", "single-match", e.single, HasFlag(e.fl, "singlematch"))
    /\ Same("C03", "index", e.idx2, e.idx)

(* expected: what each position stands for.                                  *)
Positions(g, expected) ==
    On("C12") =>
    \E others \in {Ascending((0..(Len(g.reach) - 1)) \ ToSetOf(g.special))} :
    LET start == g.special[1]
        startDs == g.special[2]
        accept == g.special[3]
        acceptEod == g.special[4]
        reach(v) == RangesOf(g.reach[v + 1])
    IN
    /\ Same("C12", "distinguished vertices", Cardinality(ToSetOf(g.special)), 4)
    /\ Same("C12", "number of vertices", <<g.nv, Len(g.reach)>>, <<4 + Len(expected), 4 + Len(expected)>>)
    /\ Same("C12", "reach of start", reach(start), AllBytes)
    /\ Same("C12", "reach of floating start", reach(startDs), AllBytes)
    /\ Same("C12", "wiring", ToSetOf(g.edges),
            {<<start, startDs>>, <<startDs, startDs>>, <<accept, acceptEod>>})
    /\ Same("C12", "number of edges", Len(g.edges), 3)
    /\ SamePoints("C12", "position", [i \in DOMAIN others |-> reach(others[i])], expected)
    /\ Same("C12", "vacuous", g.vac, FALSE)
    /\ Same("C12", "reports", g.all, <<>>)
GraphSame(e) ==
    On("C12") =>
    \E lits \in {Literals(e.pat)} :
        Positions(e.graph, [i \in DOMAIN lits |-> CharClass(lits[i], HasFlag(e.fl, "caseless"))])

TAccept ==
    /\ IsEvent("parse") /\ Event.out = "ok"
    /\ \E f \in {Expected(Event)} :
       IF f.cause = "none"
       THEN \E mm \in {IF Event.deep THEN ReadTree(Event.pat) ELSE Start(0)} :
            /\ TreeSame(Event, mm) /\ GraphSame(Event)
            /\ m' = mm
       ELSE /\ Wrong({"C02"} \cup IF f.cause \in {"unsupported", "unknown"} THEN {"C06"} ELSE {},
                     "a bad pattern was accepted", Event.pat, f)
            /\ m' = Start(0)

TReject ==
    /\ IsEvent("parse") /\ Event.out = "err"
    /\ \E f \in {Expected(Event)} :
       IF f.cause = "none"
       THEN Wrong({"C02"} \cup IF OpensLikeVerb(Event.pat) THEN {"C06"} ELSE {},
                  "a good pattern was rejected", Event.msg, Event.pat)
       ELSE /\ Same("C03", "cause", Event.cause, f.cause)
            /\ Same("C03", "offset", Event.at, f.at)
            /\ f.cause \in {"unsupported", "unknown"} =>
                  /\ Same("C03", "verb", Event.verb, f.text)
                  /\ Same("C06", "verb", <<Event.cause, Event.verb, Event.at>>, <<f.cause, f.text, f.at>>)
    /\ m' = Start(0)

TPanic ==
    /\ IsEvent("parse") /\ Event.out = "panic"
    /\ Wrong({"C01", "C02"} \cup IF Expected(Event).cause # "none" THEN {"C03"} ELSE {"C04", "C12"},
             "panic", Event.msg, Event.pat)
    /\ m' = Start(0)

(* A parse tree made by hand: pat gives its shape (every class is an "a"),   *)
(* items the classes.                                                        *)
TTree ==
    /\ IsEvent("tree")
    /\ \E e \in {Event}, bad \in {\E i \in DOMAIN Event.items : Refuses(Event.items[i])} :
       IF e.out = "panic" \/ bad
       THEN /\ Same("C05", "a class that holds what is no byte", e.out, IF bad THEN "err" ELSE "ok")
            /\ Same("C12", "answer", e.out = "panic", FALSE)
            /\ e.out = "err" => Same("C05", "category", e.kind, "LocatedParse")
       ELSE IF e.out = "err" THEN Same("C05", "a class of bytes", e.out, "ok")
       ELSE \E sets \in {[i \in DOMAIN e.items |-> Holding(e.items[i])]},
               bars \in {\E i \in DOMAIN e.pat : e.pat[i] = Bar},
               cls \in {[i \in DOMAIN e.classes |-> RangesOf(e.classes[i])]} :
            /\ Same("C04", "traversal", e.visits, FrameItem(ReadTree(e.pat).cur))
            /\ Same("C04", "classes", Len(cls), Len(sets))
            /\ Len(cls) = Len(sets) => SamePoints("C05", "class", cls, sets)
            /\ Same("C07", "is a string", e.islit /\ e.lit # <<>>, IsString(sets, bars))
            /\ IsString(sets, bars) => Same("C07", "string", e.lit, StringOf(sets))
            /\ Positions(e.graph, sets)
    /\ UNCHANGED m

TraceNext == TTree \/ TAccept \/ TReject \/ TPanic
TraceSpec == TraceInit /\ [][TraceNext]_<<l, m>>
=============================================================================
