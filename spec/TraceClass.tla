----------------------------- MODULE TraceClass -----------------------------
(* Recorded operations on byte classes against ByteClass.                    *)
EXTENDS TraceBase

Regs == 1..3
VARIABLE reg

B == INSTANCE ByteClass WITH NB <- 256, Reg <- Regs, UpperFirst <- 65, UpperLast <- 90, CaseBit <- 32

TraceInit == l = 1 /\ reg = [r \in Regs |-> {}]

RangesOf(rs) == UNION {(rs[i][1])..(rs[i][2]) : i \in DOMAIN rs}

(* The action an update event stands for.                                    *)
Update(e) ==
    CASE e.op = "set" -> B!SetOne(e.d, e.x)
      [] e.op = "reset" -> B!ResetOne(e.d, e.x)
      [] e.op = "flip" -> B!FlipOne(e.d, e.x)
      [] e.op = "setall" -> B!SetAll(e.d)
      [] e.op = "resetall" -> B!ResetAll(e.d)
      [] e.op = "flipall" -> B!FlipAll(e.d)
      [] e.op = "bytes" -> B!SetBytes(e.d, e.bs)
      [] e.op = "range" -> IF e.x <= e.y THEN B!SetRange(e.d, e.x, e.y) ELSE B!RefuseRange(e.d, e.x, e.y)
      [] e.op \in {"and", "andassign"} -> B!And(e.d, e.a, e.b)
      [] e.op \in {"or", "orassign"} -> B!Or(e.d, e.a, e.b)
      [] e.op \in {"xor", "xorassign"} -> B!Xor(e.d, e.a, e.b)
      [] e.op = "not" -> B!Not(e.d, e.a)
      [] e.op = "copy" -> B!Copy(e.d, e.a)
      [] e.op = "caseless" -> B!MakeCaseless(e.d)
      [] e.op = "fromchar" -> B!FromChar(e.d, e.x)
      [] e.op = "fromrange" -> IF e.x <= e.y THEN B!FromRange(e.d, e.x, e.y) ELSE B!RefuseRange(e.d, e.x, e.y)
      [] e.op = "frombytes" -> B!FromBytes(e.d, e.bs)
      [] e.op = "dot" -> B!Dot(e.d)
      [] e.op = "empty" -> B!Empty(e.d)

Refusal(e) == e.op \in {"range", "fromrange"} /\ e.x > e.y

TUpdate ==
    /\ IsEvent("update")
    /\ Update(Event)
    /\ Same("C14", <<Event.op, "refused">>, Event.panic, Refusal(Event))
    /\ \A r \in Regs :
          On("C14") => Same("C14", <<Event.op, "class", r>>, RangesOf(Event.regs[r]), reg'[r])
    /\ Event.op \in {"and", "or", "xor", "not"} =>
          /\ Same("C14", <<Event.op, "of bits alone">>, "field" \in DOMAIN Event, TRUE)
          /\ Same("C14", <<Event.op, "bits alone">>, RangesOf(Event.field), reg'[Event.d])

TFresh ==
    /\ IsEvent("fresh")
    /\ reg' = [r \in Regs |-> {}]

TableSame(p, what, observed, expected) ==
    \A i \in DOMAIN expected : Same(p, <<what, i - 1>>, observed[i], expected[i])

TAsk ==
    /\ IsEvent("ask") /\ ~Event.panic
    /\ LET e == Event
           S == reg[e.d]
           n == Cardinality(S)
       IN
       /\ Same("C15", "members", RangesOf(e.members), S)
       /\ Same("C15", "count", e.count, n)
       /\ Same("C15", "none", e.none, n = 0)
       /\ Same("C15", "any", e.any, n > 0)
       /\ Same("C15", "all", e.all, n = 256)
       /\ Same("C15", "first", e.first, B!Least(S))
       /\ Same("C15", "last", e.last, B!Greatest(S))
       /\ On("C15") => TableSame("C15", "next after", e.next, B!NextTable(S))
       /\ On("C15") => TableSame("C15", "nth", e.nth, B!NthTable(S))
       /\ Same("C15", "members by next", e.walk, B!Members(S))
       /\ Same("C15", "alphabetic", e.alpha, B!Alphabetic(S))
       /\ Same("C15", "case pair", e.pair, B!CasePair(S))
       /\ Same("C15", "bit 5 insensitive", e.bit5, B!Bit5Insensitive(S))
       /\ Same("C15", "ascii", e.ascii, B!Ascii(S, 128))
       /\ Same("C15", "utf-8 lead", e.utf8, B!Utf8Lead(S, 192))
       /\ \A r \in Regs :
             /\ Same("C15", <<"subset of", r>>, e.subset[r], S \subseteq reg[r])
             /\ Same("C15", <<"overlaps", r>>, e.overlaps[r], S \cap reg[r] # {})
             /\ Same("C15", <<"equals", r>>, e.equals[r], S = reg[r])
       /\ On("C16") =>
             /\ Same("C16", "text", e.text, B!Members(S))
             /\ \A i \in 0..31 : Same("C16", <<"bit vector", i>>, e.vec[i + 1], B!BitVectorWord(S, i, 8))
             /\ Same("C16", "bytes past the vector", e.tail, TRUE)
             /\ Holds("C16", "and/compare masks", B!TightestMask(S, e.mask[1], e.mask[2], 8), e.mask)
    /\ UNCHANGED reg
TAskPanic ==
    /\ IsEvent("ask") /\ Event.panic
    /\ Wrong({"C15", "C16"}, "panic", Event.msg, reg[Event.d])
    /\ UNCHANGED reg

(* All classes of x and one more, and all ranges from or to x, in one event. *)
Answers(S) == <<B!Alphabetic(S), B!CasePair(S), B!Bit5Insensitive(S), B!Ascii(S, 128), B!Utf8Lead(S, 192)>>
Between(x, y) == IF x <= y THEN x..y ELSE y..x
TPairs ==
    /\ IsEvent("pairs") /\ ~Event.panic
    /\ LET e == Event
           said(a) == [i \in DOMAIN a |-> RangesOf(a[i])]
           holds(a) == [y \in B!Val |-> [i \in 1..5 |-> y \in a[i]]]
           base == {e.base[i] : i \in DOMAIN e.base}
       IN
       /\ On("C15") =>
             \E two \in {holds(said(e.pairs))} : \E span \in {holds(said(e.spans))} : \A y \in B!Val :
                /\ Same("C15", <<"questions of a pair", e.x, y>>, two[y], Answers({e.x, y}))
                /\ Same("C15", <<"questions of a range", e.x, y>>, span[y], Answers(Between(e.x, y)))
       /\ On("C14") => \A y \in B!Val :
             /\ Same("C14", <<"range", e.x, y>>, RangesOf(e.ranges[y + 1]), Between(e.x, y))
             /\ Same("C14", <<"range added", e.x, y>>,
                     <<e.added[y + 1], e.exact[y + 1]>>, <<Cardinality(base \cup Between(e.x, y)), TRUE>>)
    /\ UNCHANGED reg
TPairsPanic ==
    /\ IsEvent("pairs") /\ Event.panic
    /\ Wrong({"C14", "C15"}, "panic", Event.msg, "an answer")
    /\ UNCHANGED reg

TraceNext == TPairs \/ TPairsPanic \/ TFresh \/ TUpdate \/ TAsk \/ TAskPanic
TraceSpec == TraceInit /\ [][TraceNext]_<<l, reg>>
=============================================================================
