---------------------------- MODULE MC_Isolation ----------------------------
EXTENDS Isolation, Json

CONSTANT Emit
VARIABLE path   \* what happened, if it is to be replayed into the code

p1 == <<"1", FALSE, FALSE, TRUE>>
p2 == <<"1", TRUE, FALSE, TRUE>>
p3 == <<"2", TRUE, TRUE, TRUE>>
bad == <<"2", FALSE, FALSE, FALSE>>
SomeCalls == {<<>>, <<p1>>, <<p2, p3>>, <<p3, p2>>, <<p1, p2>>, <<p3, bad>>}
SomeSchedules == SomeCalls \ {<<>>, <<p3, p2>>}
TinyCalls == {<<p1>>, <<p2>>, <<p3, bad>>}

Act(t, what) == path' = IF Emit THEN Append(path, <<t, what>>) ELSE path
MCInit == IInit /\ path = <<>>
MCNext ==
    \E t \in Threads :
        \/ started < MaxCompiles /\ \E c \in Calls : BeginCompile(t, c) /\ Act(t, <<"begin", c>>)
        \/ Step(t) /\ Act(t, <<"step">>)
        \/ EndCompile(t) /\ Act(t, <<"end">>)
        \/ ~Emit /\ ScanDb(t) /\ Act(t, <<"scan">>)
MCSpec == MCInit /\ [][MCNext]_<<ivars, path>>

EmitOk == (Emit /\ started = MaxCompiles /\ \A t \in Threads : ~running[t].busy) =>
    PrintT(<<"SCHEDULE", ToJson(path)>>)
=============================================================================
