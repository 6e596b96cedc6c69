----------------------------- MODULE GraphJudge -----------------------------
EXTENDS Graph, Json, IOUtils
VARIABLE i
T == ndJsonDeserialize(IOEnv.TRACEFILE)
Init == i \in DOMAIN T
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Judge == PrintT(<<"JUDGE", T[i].sid, T[i].ok /\ GraphRight(T[i].conns, T[i].mode, T[i].border, T[i].d)>>)
=============================================================================
