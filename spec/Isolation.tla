----------------------------- MODULE Isolation -----------------------------
(* Several threads compiling and scanning at once. Each compile works on a   *)
(* report manager of its own, pattern by pattern; with Shared they would all *)
(* work on one that outlives them (a design that must turn out wrong).       *)
EXTENDS Reports

CONSTANTS Threads, Calls, MaxCompiles, Shared

(* A call is a sequence of patterns <<id, single-match, quiet, good>>.       *)
VARIABLES
    running,  \* call under way and how far it got, per thread
    rms,      \* report manager, per thread
    common,   \* the manager if there is one for all
    done,     \* set of <<call, outcome>> seen so far
    started,  \* number of compiles begun
    db        \* outcome in the database being scanned
ivars == <<running, rms, common, done, started, db>>

NoRun == [key |-> <<>>, pos |-> 0, busy |-> FALSE]

(* One pattern of a compile: the manager afterwards, or an error.            *)
Failed(index, why) == [ok |-> FALSE, index |-> index, why |-> why, rm |-> NewManager]
Fine(rm) == [ok |-> TRUE, index |-> -1, why |-> "", rm |-> rm]
OnePattern(rm, p, i) ==
    IF ~p[4] THEN Failed(i, "bad pattern")
    ELSE IF Conflicts(rm, p[1], p[2]) THEN Failed(i, "conflict")
    ELSE LET r1 == Register(rm, p[1], p[2], i)
             r2 == IF p[2] THEN Exhaustible(r1, p[1]) ELSE r1
         IN Fine(Intern(r2, EndReport(p[1], "0", KeyOf(r2, p[1], p[2]), p[3])))

(* What a call compiles to, from its arguments alone.                        *)
RECURSIVE Run(_, _, _)
Run(rm, c, i) ==
    IF i = Len(c) THEN Fine(rm)
    ELSE LET o == OnePattern(rm, c[i + 1], i) IN
         IF o.ok THEN Run(o.rm, c, i + 1) ELSE o
Reference(c) == Run(NewManager, c, 0)

IInit ==
    /\ running = [t \in Threads |-> NoRun]
    /\ rms = [t \in Threads |-> NewManager]
    /\ common = NewManager /\ done = {} /\ started = 0 /\ db = Reference(<<>>)

BeginCompile(t, c) ==
    /\ ~running[t].busy
    /\ running' = [running EXCEPT ![t] = [key |-> c, pos |-> 0, busy |-> TRUE]]
    /\ rms' = [rms EXCEPT ![t] = NewManager]
    /\ started' = started + 1
    /\ UNCHANGED <<common, done, db>>

Mine(t) == IF Shared THEN common ELSE rms[t]
Step(t) ==
    /\ running[t].busy
    /\ running[t].pos < Len(running[t].key)
    /\ LET o == OnePattern(Mine(t), running[t].key[running[t].pos + 1], running[t].pos) IN
       IF o.ok
       THEN /\ running' = [running EXCEPT ![t].pos = @ + 1]
            /\ IF Shared THEN common' = o.rm /\ UNCHANGED rms
               ELSE rms' = [rms EXCEPT ![t] = o.rm] /\ UNCHANGED common
            /\ UNCHANGED <<done, started, db>>
       ELSE /\ running' = [running EXCEPT ![t] = NoRun]
            /\ done' = done \cup {<<running[t].key, o>>}
            /\ UNCHANGED <<rms, common, started, db>>
EndCompile(t) ==
    /\ running[t].busy
    /\ running[t].pos = Len(running[t].key)
    /\ running' = [running EXCEPT ![t] = NoRun]
    /\ done' = done \cup {<<running[t].key, Fine(Mine(t))>>}
    /\ UNCHANGED <<rms, common, started, db>>
(* A scan reads the database and changes nothing.                            *)
ScanDb(t) == ~running[t].busy /\ UNCHANGED ivars

INext ==
    \E t \in Threads :
        \/ started < MaxCompiles /\ \E c \in Calls : BeginCompile(t, c)
        \/ Step(t) \/ EndCompile(t) \/ ScanDb(t)
ISpec == IInit /\ [][INext]_ivars /\ WF_ivars(\E t \in Threads : Step(t) \/ EndCompile(t))

OwnArguments == \A d \in done : d[2] = Reference(d[1])
OneOutcome == \A d, e \in done : d[1] = e[1] => d[2] = e[2]
(* What a compile has so far depends only on how far it got.                 *)
Halfway == \A t \in Threads : running[t].busy /\ ~Shared =>
    rms[t] = Run(NewManager, SubSeq(running[t].key, 1, running[t].pos), 0).rm
=============================================================================
