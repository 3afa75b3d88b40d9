------------------------------ MODULE MC_Tree ------------------------------
(* Every class sequence of bounded size, made one character at a time.       *)
EXTENDS Tree

CONSTANTS MaxItems, MaxChars
VARIABLES items, bars
vars == <<items, bars>>

Chars == {65, 97, 66, 98, 49, 64, 96, 91, 200, 232, 256, 321}
Init == items = <<>> /\ bars = FALSE
NewClass == /\ Len(items) < MaxItems
            /\ \E n \in BOOLEAN : items' = Append(items, [chars |-> <<>>, nocase |-> n])
            /\ UNCHANGED bars
AddChar == /\ items # <<>>
           /\ Len(Last(items).chars) < MaxChars
           /\ ~Refuses(Last(items))
           /\ \E c \in Chars : items' = [items EXCEPT ![Len(items)].chars = Append(@, c)]
           /\ UNCHANGED bars
AddBar == ~bars /\ bars' = TRUE /\ UNCHANGED items
Next == NewClass \/ AddChar \/ AddBar
Spec == Init /\ [][Next]_vars

Good == \A i \in DOMAIN items : ~Refuses(items[i])
Sets == [i \in DOMAIN items |-> Holding(items[i])]
Elems == {<<c, FALSE>> : c \in Chars} \cup {<<65, TRUE>>, <<66, TRUE>>}

(* A string stands for its classes, and when there is none, none could.      *)
StringOk == Good /\ ~bars /\ items # <<>> =>
    IF IsString(Sets, bars)
    THEN \A i \in DOMAIN items : Matched(StringOf(Sets)[i]) = Sets[i]
    ELSE \E i \in DOMAIN items : \A el \in Elems : Matched(el) # Sets[i]
(* The order of adding does not matter, nor does adding twice.               *)
OrderOk == \A i \in DOMAIN items :
    LET x == items[i] IN
    Holding(x) = Holding([x EXCEPT !.chars = Reverse(@)]) /\ Holding(x) = Holding([x EXCEPT !.chars = @ \o @])
(* Letters come in pairs, nothing else does.                                 *)
CaselessOk == \A i \in DOMAIN items : items[i].nocase =>
    \A c \in Holding(items[i]) : CaseVariants(c) \subseteq Holding(items[i])
        /\ (c \in {65, 66} <=> c + 32 \in Holding(items[i]) /\ c < 91 /\ c > 64)
Grows == [][\A i \in DOMAIN items : Holding(items[i]) \subseteq Holding(items'[i])]_vars
=============================================================================
