---------------------------- MODULE LoopJudge ----------------------------
EXTENDS Loop, Json, IOUtils
VARIABLE i
T == ndJsonDeserialize(IOEnv.TRACEFILE)
Init == i \in DOMAIN T
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Judge == PrintT(<<"JUDGE", T[i].sid, Why(T[i])>>)
=============================================================================
