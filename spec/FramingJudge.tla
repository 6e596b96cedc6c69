---------------------------- MODULE FramingJudge ----------------------------
EXTENDS Framing, Json, IOUtils
VARIABLE i
T == ndJsonDeserialize(IOEnv.TRACEFILE)
Init == i \in DOMAIN T
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Judge == PrintT(<<"JUDGE", T[i].sid, T[i].status = "ok" /\ (IF "runs" \in DOMAIN T[i] THEN FramedRuns(T[i].runs, T[i].msgs) ELSE Framed(T[i].bytes, T[i].msgs))>>)
=============================================================================
