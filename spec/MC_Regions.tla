----------------------------- MODULE MC_Regions -----------------------------
(* Wiring of bounded regions.                                                *)
EXTENDS Regions
CONSTANTS Vertices, MaxSteps, FlagSets, RegionSize

VARIABLES w, steps, before

Positions == 0..(3 + Vertices)
Infos == (Positions \cup {Epsilon}) \X FlagSets
(* A region has each position once.                                          *)
Regions == {S \in SUBSET Infos : Cardinality(S) <= RegionSize /\ \A p, q \in S : Pos(p) = Pos(q) => p = q}
Lasts == {p \in Infos : Pos(p) # Epsilon}

Init == \E line \in SUBSET {Start, 4} : w = NewWiring(4 + Vertices, line) /\ steps = 0 /\ before = w
Next ==
    /\ steps < MaxSteps
    /\ \E from \in Lasts, firsts \in Regions : w' = ConnectRegions(w, <<from>>, firsts)
    /\ steps' = steps + 1 /\ before' = w
Spec == Init /\ [][Next]_<<w, steps, before>>

NothingFloatsThatMustNot == \A e \in w.wired : e[1] = StartDs => ~With(e[2], "nofloat")
NotAnchoredInVain == \A e \in w.wired : e[1] = Start =>
    /\ ~({"nofloat", "mustfloat"} \subseteq e[2][2])
    /\ Pos(e[2]) = Epsilon => With(e[2], "nofloat")
(* Wired to both starts, a position that does not contradict itself has one. *)
NeverLost == \A p \in Infos :
    LET x == ConnectRegions(w, << <<Start, {}>>, <<StartDs, {}>> >>, {p})
        from == {s \in {Start, StartDs} : <<s, p>> \in x.wired} IN
    Pos(p) \notin {Accept, AcceptEod} /\ ~({"nofloat", "mustfloat"} \subseteq p[2]) =>
        /\ from # {}
        /\ Pos(p) = Epsilon /\ <<Start, p>> \notin w.wired /\ <<StartDs, p>> \notin w.wired => Cardinality(from) = 1
LineNeverEndsData == \A e \in w.wired : e[1] \in w.line => Pos(e[2]) # AcceptEod
NeverStraightToAccept == \A e \in w.wired : Pos(e[2]) # Accept
NothingIsUnwired == before.wired \subseteq w.wired /\ before.n <= w.n
StartsFloat == {<<Start, <<StartDs, {}>>>>, <<StartDs, <<StartDs, {}>>>>} \subseteq w.wired
(* Fresh positions have one way in.                                          *)
FreshOnce == \A v \in (4 + Vertices)..(w.n - 1) : Cardinality({e \in w.wired : Pos(e[2]) = v}) >= 1
(* Doing it again changes nothing but for accepts.                           *)
Idempotent == \A from \in {<<Start, {}>>, <<StartDs, {}>>, <<4, {}>>} : \A t \in FlagSets :
    LET r == {<<4, t>>}
        once == ConnectRegions(w, <<from>>, r) IN
    ConnectRegions(once, <<from>>, r) = once
=============================================================================
