------------------------------ MODULE NetTrace ------------------------------
(* Accepts the recorded executions of real components which Net allows.     *)
(* Every line of the file is one execution: a network and a sequence of     *)
(* events, each with what was observed after it.  Silent steps of the       *)
(* components are inferred; they happen only where the component was run.   *)
EXTENDS Net, Json, IOUtils

VARIABLES sid, l, ph

T == ndJsonDeserialize(IOEnv.TRACEFILE)
Ev == T[sid].ev
tvars == <<vars, sid, l, ph>>

TraceInit ==
  /\ \E s \in DOMAIN T : sid = s /\ InitNet(T[s].net)
  /\ l = 1
  /\ ph = "env"

Same == UNCHANGED vars

EnvAct(v) ==
  CASE v.a = "send"   -> IF v.res = "ok" THEN EnvSend(v.e, v.m)
                         ELSE IF v.res = "full" THEN open[v.e] /\ Full(v.e) /\ Same
                         ELSE ~open[v.e] /\ Same
    [] v.a = "close"  -> EnvClose(v.e)
    [] v.a = "recv"   -> IF v.res = "ok" THEN EnvRecv(v.e, v.m)
                         ELSE IF v.res = "empty" THEN q[v.e] = <<>> /\ open[v.e] /\ Same
                         ELSE q[v.e] = <<>> /\ ~open[v.e] /\ Same
    [] v.a = "drop"   -> EnvDrop(v.e)
    [] v.a = "pause"  -> v.res = "ok" /\ Pause(v.e)
    [] v.a = "resume" -> v.res = "ok" /\ Resume(v.e)
    [] v.a = "got"    -> q[v.e] = v.ms /\ Same
    [] v.a \in {"step", "settle"} -> Same

\* What became of the component as a whole.
Fut == IF \E c \in Comps : st[c] = "run" THEN "run"
       ELSE IF \E c \in Comps : st[c] = "err" THEN "err" ELSE "ok"

\* The size a buffer reports: the messages between its two halves.
SizeOK(v) ==
  LET n == Len(q[net.sizeof]) IN
  IF net.sizeof = 0 THEN TRUE
  ELSE IF \E e \in Edges : ~rx[e] /\ E(e).src # 0 /\ E(e).dst = 0 THEN TRUE
  ELSE /\ v.quiet => (v.size <= n + 1 /\ n <= v.size + 1)
       /\ v.fut = "ok" => v.size = 0

Observe(v) ==
  /\ \A e \in Edges : v.len[e] >= 0 => Len(q[e]) = v.len[e]
  /\ \A e \in Edges : v.open[e] >= 0 => (open[e] <=> v.open[e] = 1)
  /\ v.fut # "run" => Fut = v.fut
  /\ v.quiet => (Quiet /\ Fut = v.fut)
  /\ net.spy => wlog = v.spy
  /\ SizeOK(v)

\* What was seen after the event rules out most of what might happen before:
\* a component cannot take back what it wrote or read.
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Possible(v) ==
  /\ net.spy => IsPrefixOf(wlog', v.spy)
  /\ \A e \in Edges : v.len[e] >= 0 =>
        IF E(e).dst = 0 THEN Len(q'[e]) <= v.len[e] ELSE Len(q'[e]) >= v.len[e]
  /\ \A e \in Edges : (v.open[e] = 1 => open'[e])

Polled(v) == v.a \in {"step", "settle"}

TraceNext ==
  /\ l <= Len(Ev)
  /\ UNCHANGED sid
  /\ \/ ph = "env" /\ EnvAct(Ev[l]) /\ ph' = "sys" /\ UNCHANGED l
     \/ ph = "sys" /\ Polled(Ev[l]) /\ (\E c \in Comps : CompStep(c)) /\ Possible(Ev[l]) /\ UNCHANGED <<l, ph>>
     \/ ph = "sys" /\ Observe(Ev[l]) /\ l' = l + 1 /\ ph' = "env"
        /\ wlog' = <<>>
        /\ UNCHANGED <<net, q, open, rx, st, hand, pend, dead, from, live, pleft, want, budget>>

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* The longest accepted prefix of each execution (workers must be 1).
\* An execution which is accepted needs no further search.
Reached == /\ TLCGet(sid) <= Len(Ev)
           /\ TLCSet(sid, IF l > TLCGet(sid) THEN l ELSE TLCGet(sid))
ASSUME \A s \in DOMAIN T : TLCSet(s, 0)
Report == \A s \in DOMAIN T : PrintT(<<"TRACE", T[s].sid, TLCGet(s) - 1, Len(T[s].ev)>>)
=============================================================================
