----------------------------- MODULE NetLogTrace -----------------------------
(* Accepts the recorded runs of whole networks which NetLog allows.          *)
EXTENDS NetLog, Json, IOUtils

VARIABLES sid, l
T == ndJsonDeserialize(IOEnv.TRACEFILE)
Ev == T[sid].ev

TraceInit == \E s \in DOMAIN T : sid = s /\ InitNet(T[s].net) /\ l = 1

\* the files of drains
Files(v) == (\A k \in DOMAIN v.got : v.got[k][1] \in early \/ got[v.got[k][1]] = v.got[k][2]) = TRUE

Step(v) ==
  CASE v.a = "w" -> \E k \in DOMAIN v.es : Write(v.es[k], v.m)
    [] v.a = "give" -> Say(v.c, "out", v.m)
    [] v.a \in {"out", "err"} -> Say(v.c, v.a, v.m)
    [] v.a = "failed" -> Failed(v.c, v.m)
    [] v.a = "end" -> Shut(v.c, {"out"})
    [] v.a = "closeout" -> Shut(v.c, {"out"})
    [] v.a = "closeerr" -> Shut(v.c, {"err"})
    [] v.a = "closein" -> CloseIn(v.c)
    [] v.a = "exit" -> Exit(v.c, v.m)
    [] v.a = "take" -> Take(v.c, v.m)
    [] v.a = "empty" -> Empty(v.c)
    [] v.a = "eof" -> Eof(v.c)
    [] v.a = "quiet" -> Quiet(v.fut)
    [] v.a = "files" -> Files(v) /\ UNCHANGED vars
    [] OTHER -> FALSE

TraceNext == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, sid, l>>

Reached == /\ TLCGet(sid) <= Len(Ev)
           /\ TLCSet(sid, IF l > TLCGet(sid) THEN l ELSE TLCGet(sid))
ASSUME \A s \in DOMAIN T : TLCSet(s, 0)
Report == \A s \in DOMAIN T : PrintT(<<"TRACE", T[s].sid, TLCGet(s) - 1, Len(T[s].ev)>>)
=============================================================================
