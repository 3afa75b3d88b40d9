------------------------------ MODULE Session ------------------------------
(* A compile session: the call is checked, then its patterns are taken in    *)
(* list order, each handed on as a string or as an automaton or rejected,    *)
(* and if none is rejected the database is built.                            *)
EXTENDS Pattern, Reports, SmallWrite

(* call: n patterns with nflags flags and nids match ids, given by the lists *)
(*   pats (of code point sequences), flags and ids of Args(args), repeated   *)
(*   as often as needed; mode; lim: allowLiteral, shortcut, patterns, length, reports,   *)
(*   sw (see SmallWrite)                                                     *)
VARIABLES
    call,     \* arguments of the compile under way
    phase,    \* "idle", "adding", "built" or "rejected"
    pos,      \* number of patterns added
    rm,       \* report manager
    sw,       \* small-buffer engine
    minw,     \* length of the shortest string handed on, Infinity if none
    handed,   \* number of strings handed on, the last of them and its report
    failure,  \* cause of the rejection and where
    db        \* mode and engine of the database built

svars == <<call, phase, pos, rm, sw, minw, handed, failure, db>>

Infinity == 2147483647
NoCall == [args |-> 0, n |-> 0, nflags |-> 0, nids |-> 0,
           mode |-> "block", lim |-> <<>>]
NoDb == [mode |-> "none", engine |-> "none"]
NoneHanded == [n |-> 0, lit |-> <<>>, rep |-> -1]
NoError == [cause |-> "none", index |-> -1, at |-> -1, text |-> <<>>, first |-> -1, id |-> ""]

Idle == /\ call = NoCall /\ phase = "idle" /\ pos = 0 /\ rm = NewManager
        /\ sw = NewEngine(0, [enabled |-> FALSE, maxPatterns |-> 0])
        /\ minw = Infinity /\ handed = NoneHanded /\ failure = NoError /\ db = NoDb

Streaming(mode) == mode \in {"stream", "streamS", "streamM", "streamL", "vectored"}
SomPrecision(mode) ==
    CASE mode = "streamL" -> 8 [] mode = "streamM" -> 4 [] mode = "streamS" -> 2
      [] mode = "vectored" -> 8 [] OTHER -> 0
DatabaseMode(mode) ==
    CASE mode = "block" -> "block" [] mode = "vectored" -> "vectored" [] OTHER -> "stream"

-----------------------------------------------------------------------------
(* The call itself.                                                          *)

ListFault(c) ==
    IF c.n = 0 THEN "empty"
    ELSE IF c.nflags # c.n \/ c.nids # c.n THEN "lengths"
    ELSE IF c.n > c.lim.patterns THEN "count"
    ELSE "none"

Fresh(c) ==
    /\ call' = c /\ pos' = 0 /\ rm' = NewManager
    /\ sw' = NewEngine(c.n, c.lim.sw)
    /\ minw' = Infinity /\ handed' = NoneHanded /\ db' = NoDb

Begin(c) ==
    /\ phase # "adding" /\ Fresh(c)
    /\ ListFault(c) = "none"
    /\ phase' = "adding" /\ failure' = NoError
RefuseCall(c) ==
    /\ phase # "adding" /\ Fresh(c)
    /\ ListFault(c) # "none"
    /\ phase' = "rejected" /\ failure' = [NoError EXCEPT !.cause = ListFault(c)]

-----------------------------------------------------------------------------
(* One pattern.                                                              *)

Cur == pos + 1
At(list, i) == list[((i - 1) % Len(list)) + 1]
CONSTANT Args(_)   \* the lists of a call, by what the call says they are
PatAt(i) == At(Args(call.args).pats, i)
FlagsAt(i) == At(Args(call.args).flags, i)
IdAt(i) == At(Args(call.args).ids, i)
Pat == PatAt(Cur)
Fl == FlagsAt(Cur)
Id == IdAt(Cur)
Single == HasFlag(Fl, "singlematch")
Quiet == HasFlag(Fl, "quiet")
Adding == phase = "adding" /\ pos < call.n

OwnFailureOf(pat, fl) ==
    IF ByteLength(pat) > call.lim.length THEN Failure("length", -1)
    ELSE PatternFailure(pat, fl)
OwnFailure == OwnFailureOf(Pat, Fl)

(* Routing.                                                                  *)
AsString == call.lim.allowLiteral /\ call.lim.shortcut /\ IsPureLiteral(Pat)
String == LiteralOf(Pat, Fl)

(* The manager and the report once the pattern's match id is registered.     *)
Registered == Register(rm, Id, Single, pos)
WithKey == IF Single THEN Exhaustible(Registered, Id) ELSE Registered
ReportOf(m, id, single, quiet) ==
    EndReport(id, "0", KeyOf(m, id, single), quiet)
Report == ReportOf(WithKey, Id, Single, Quiet)

(* Failures that depend on the patterns before this one.                     *)
SetFailure ==
    IF Conflicts(rm, Id, Single)
    THEN [NoError EXCEPT !.cause = "conflict", !.index = pos, !.first = Entry(rm, Id)[3], !.id = Id]
    ELSE IF AsString /\ Refused(WithKey, Report, call.lim.reports)
    THEN [NoError EXCEPT !.cause = "reports", !.index = pos]
    ELSE NoError

PatternError ==
    Let(OwnFailure,
        LAMBDA own : IF own.cause # "none"
                     THEN [NoError EXCEPT !.cause = own.cause, !.index = pos, !.at = own.at, !.text = own.text]
                     ELSE SetFailure)

Good == PatternError = NoError

(* The effects. "\E x \in {e} : F" is LET x == e IN F; but TLC then evaluates *)
(* e once, not at every use of x.                                            *)
TakeString ==
    \E m \in {WithKey}, s \in {String} :
    \E r \in {ReportOf(m, Id, Single, Quiet)} :
    /\ rm' = Intern(m, r)
    /\ minw' = IF Len(s) < minw THEN Len(s) ELSE minw
    /\ sw' = AddLiteral(sw, s, InternalId(rm', r), call.lim.sw)
    /\ handed' = [n |-> handed.n + 1, lit |-> s, rep |-> InternalId(rm', r)]
    /\ pos' = pos + 1
    /\ UNCHANGED <<call, phase, failure, db>>
TakeGraph ==
    /\ rm' = Registered
    /\ pos' = pos + 1
    /\ UNCHANGED <<call, phase, sw, minw, handed, failure, db>>
Refuse(f) ==
    /\ phase' = "rejected" /\ failure' = f
    /\ UNCHANGED <<call, pos, rm, sw, minw, handed, db>>

AddString == Adding /\ Good /\ AsString /\ TakeString
AddGraph == Adding /\ Good /\ ~AsString /\ TakeGraph
Reject == Adding /\ ~Good /\ Refuse(PatternError)

Build ==
    /\ phase = "adding" /\ pos = call.n
    /\ phase' = "built"
    /\ db' = [mode |-> DatabaseMode(call.mode), engine |-> "full"]
    /\ UNCHANGED <<call, pos, rm, sw, minw, handed, failure>>

Step == AddString \/ AddGraph \/ Reject \/ Build
=============================================================================
