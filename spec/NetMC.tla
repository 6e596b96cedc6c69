------------------------------- MODULE NetMC -------------------------------
(* Exhaustive exploration of Net for small networks, with history variables *)
(* in which the properties are stated.                                      *)
EXTENDS Net

CONSTANTS NetName,    \* which networks to explore
          MaxMsg,     \* messages the environment sends on each input
          Drops,      \* TRUE: the environment may drop its ends
          MaxCtl      \* requests made to a regulator

VARIABLES sent,     \* sent[e]: everything ever written to e
          tk,       \* tk[c]: <<input, message>> in the order taken
          over,     \* over[<<e,f>>]: messages taken from e while f was waiting
          fwd,      \* fwd[c]: messages c completed since it was asked to stop
          dropped,  \* env outputs dropped
          ctl       \* requests made so far
ghost == <<sent, tk, over, fwd, dropped, ctl>>
allvars == <<vars, ghost>>

Ed(s, d, cap, pol, prio) == [src |-> s, dst |-> d, cap |-> cap, pol |-> pol, prio |-> prio]
Half(d) == [kind |-> "relay", gate |-> FALSE, exitof |-> 0, with |-> d]
Co(k, g) == [kind |-> k, gate |-> g, exitof |-> 0, with |-> 0]
N(es, cs) == [edges |-> es, comps |-> cs, spy |-> FALSE]
Pols == {"T", "F", "C"}

Relays == {N(<<Ed(0,1,a,"T",0), Ed(1,0,b,p,0)>>, <<Co("relay", FALSE)>>) : a \in {1,2}, b \in {1,2}, p \in Pols}
\* a buffer: no bound between its two halves
Buffers == {N(<<Ed(0,1,1,"T",0), Ed(1,2,-1,p,0), Ed(2,0,1,p,0)>>, <<Half(2), Co("relay", FALSE)>>) : p \in Pols}
Regulators == {N(<<Ed(0,1,2,"T",0), Ed(1,0,b,p,0)>>, <<Co("relay", TRUE)>>) : b \in {1,2}, p \in {"T","F"}}
Junctions2 == {N(<<Ed(0,1,1,"T",i), Ed(0,1,1,"T",j), Ed(1,0,1,p,0), Ed(1,0,1,r,0)>>, <<Co("junction", FALSE)>>) :
                  i \in {0, 1}, j \in {1}, p \in Pols, r \in Pols}
Junctions3 == {N(<<Ed(0,1,1,"T",i), Ed(0,1,1,"T",j), Ed(0,1,1,"T",k), Ed(1,0,1,"T",0)>>, <<Co("junction", FALSE)>>) :
                  i \in {-1, 1}, j \in {1}, k \in {1, 2}}
\* source -> junction -> two relays -> junction -> sink: a diamond
Diamonds == {N(<<Ed(0,1,1,"T",0), Ed(1,2,1,"T",0), Ed(1,3,1,"T",0), Ed(2,4,1,"T",i), Ed(3,4,1,"T",1), Ed(4,0,1,"T",0)>>,
               <<Co("junction", FALSE), Co("relay", FALSE), Co("relay", FALSE), Co("junction", FALSE)>>) : i \in {0, 1}}
\* a chain in which any connection may break
Chains == {N(<<Ed(0,1,1,"T",0), Ed(1,2,1,p,0), Ed(2,3,1,r,0), Ed(3,0,1,s,0)>>,
             <<Co("relay", FALSE), Co("relay", FALSE), Co("relay", FALSE)>>) : p \in Pols, r \in Pols, s \in Pols}
\* a launch: stdin (Finish), stdout, stderr, exit code
Launches == {N(<<Ed(0,1,1,"T",0), Ed(1,0,2,"F",0), Ed(0,2,2,"T",0), Ed(2,0,1,p,0), Ed(0,3,2,"T",0), Ed(3,0,1,"T",0), Ed(0,4,1,"T",0), Ed(4,0,1,p,0)>>,
             <<[kind |-> "relay", gate |-> FALSE, exitof |-> 4, with |-> 0], [kind |-> "relay", gate |-> FALSE, exitof |-> 4, with |-> 0],
               [kind |-> "relay", gate |-> FALSE, exitof |-> 4, with |-> 0], Co("exit", FALSE)>>) : p \in Pols}
\* a loop: junction(1) -> program(2), which sends things back once
LoopNoBuf == {N(<<Ed(0,1,1,"T",i), Ed(1,2,1,"T",0), Ed(2,1,1,"T",0), Ed(2,0,1,"T",0)>>,
                <<Co("junction", FALSE), Co("sieve", FALSE)>>) : i \in {0, 1}}
LoopBuf == {N(<<Ed(0,1,1,"T",i), Ed(1,2,1,"T",0), Ed(2,3,1,"T",0), Ed(2,0,1,"T",0), Ed(3,4,-1,"T",0), Ed(4,1,1,"T",0)>>,
                <<Co("junction", FALSE), Co("sieve", FALSE), Half(4), Co("relay", FALSE)>>) : i \in {0, 1}}

Nets == CASE NetName = "relay" -> Relays
          [] NetName = "buffer" -> Buffers
          [] NetName = "regulator" -> Regulators
          [] NetName = "junction2" -> Junctions2
          [] NetName = "junction3" -> Junctions3
          [] NetName = "diamond" -> Diamonds
          [] NetName = "chain" -> Chains
          [] NetName = "launch" -> Launches
          [] NetName = "loopnobuf" -> LoopNoBuf
          [] NetName = "loopbuf" -> LoopBuf

Init ==
  /\ \E n \in Nets : InitNet(n)
  /\ sent = [e \in Edges |-> <<>>]
  /\ tk = [c \in Comps |-> <<>>]
  /\ over = [p \in {x \in Edges \X Edges : E(x[1]).dst = E(x[2]).dst /\ E(x[1]).dst # 0} |-> 0]
  /\ fwd = [c \in Comps |-> 0]
  /\ dropped = {}
  /\ ctl = 0

\* How the histories follow the state.
Histories ==
  /\ sent' = [e \in Edges |-> IF Len(q'[e]) > Len(q[e]) THEN Append(sent[e], q'[e][Len(q'[e])]) ELSE sent[e]]
  /\ tk' = [c \in Comps |-> IF hand[c] = <<>> /\ hand'[c] # <<>> THEN Append(tk[c], <<from'[c], hand'[c][1]>>) ELSE tk[c]]
  /\ over' = [p \in DOMAIN over |->
       LET e == p[1]  f == p[2]  c == E(e).dst IN
       IF q'[f] = <<>> \/ f \notin live'[c] THEN 0
       ELSE IF hand[c] = <<>> /\ hand'[c] # <<>> /\ from'[c] = f THEN 0
       ELSE IF hand[c] = <<>> /\ hand'[c] # <<>> /\ from'[c] = e /\ q[f] # <<>> THEN over[p] + 1
       ELSE over[p]]
  /\ fwd' = [c \in Comps |->
       IF want'[c] = "go" \/ want[c] = "go" THEN 0
       ELSE IF hand[c] # <<>> /\ hand'[c] = <<>> THEN fwd[c] + 1 ELSE fwd[c]]

IsExit(e) == net.comps[E(e).dst].kind = "exit"
\* the program exits
EnvEnd(e) == IF IsExit(e) THEN (sent[e] = <<>> /\ EnvSend(e, 99)) ELSE EnvClose(e)

Env ==
  \/ \E e \in EnvIns : Len(sent[e]) < (IF net.comps[E(e).dst].kind = "exit" THEN 1 ELSE MaxMsg) /\ EnvSend(e, 10 * e + Len(sent[e])) /\ UNCHANGED <<dropped, ctl>>
  \/ \E e \in EnvIns : open[e] /\ ~IsExit(e) /\ EnvClose(e) /\ UNCHANGED <<dropped, ctl>>
  \/ \E e \in EnvOuts : q[e] # <<>> /\ EnvRecv(e, Head(q[e])) /\ UNCHANGED <<dropped, ctl>>
  \/ Drops /\ \E e \in EnvOuts : EnvDrop(e) /\ dropped' = dropped \cup {e} /\ UNCHANGED ctl
  \/ \E c \in Comps : net.comps[c].gate /\ ctl < MaxCtl
        /\ (Pause(c) \/ Resume(c)) /\ ctl' = ctl + 1 /\ UNCHANGED dropped

Comp == \E c \in Comps : CompStep(c)
Next == \/ Env /\ Histories
        \/ Comp /\ Histories /\ UNCHANGED <<dropped, ctl>>

Spec == Init /\ [][Next]_allvars

----------------------------------------------------------------------------
MsgsOf(s) == [i \in DOMAIN s |-> s[i][2]]
Proj(s, e) == MsgsOf(SelectSeq(s, LAMBDA x : x[1] = e))
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Moving(c) == net.comps[c].kind \in {"relay", "junction"}
\* messages of c which are completely written
Done(c) == Len(tk[c]) - Len(hand[c])

\* C01, C03: every output carries what was taken, in that order, all of it as
\* long as it is open; every input was taken from the front, completely.
OutputsCopy == \A c \in Comps : Moving(c) => \A o \in Outs(c) :
   /\ IsPre(sent[o], MsgsOf(tk[c]))
   /\ open[o] => Len(sent[o]) = Len(tk[c]) - (IF o \in pend[c] THEN 1 ELSE 0)
InputsInOrder == \A c \in Comps : Moving(c) => \A e \in Ins(c) :
   /\ IsPre(Proj(tk[c], e), sent[e])
   /\ rx[e] => Proj(tk[c], e) \o q[e] = sent[e]

\* C04: how often an input can be overtaken
FairShare == \A p \in DOMAIN over :
   LET e == p[1]  f == p[2] IN
     /\ E(e).prio = E(f).prio => over[p] <= 2
     /\ E(e).prio > E(f).prio => over[p] <= 1

\* C05: an orderly end means that all inputs ended and all was written
OrderlyEnd == \A c \in Comps : (Moving(c) /\ st[c] = "ok" /\ \A o \in Outs(c) : rx[o]) =>
   \A e \in Ins(c) : ~open[e] /\ Proj(tk[c], e) = sent[e]
\* ... and outputs are only closed by an end, a failure or their receiver
OutsOpen == \A c \in Comps : st[c] = "run" => \A o \in Outs(c) : rx[o] => open[o]

\* C07
OneMore == \A c \in Comps : net.comps[c].gate => fwd[c] <= 1

\* C09: taken and not passed on: at most what is in the hand
InHand == \A c \in Comps : Moving(c) => \A o \in Outs(c) :
   open[o] => Len(tk[c]) - Len(sent[o]) <= 1

\* C10: a failure closes everything around a component
FailCloses == \A c \in Comps : st[c] = "err" =>
   /\ \A e \in Ins(c) : ~open[e]
   /\ \A o \in Outs(c) : ~open[o]
\* ... and needs a broken Terminate connection
FailNeedsT == \A c \in Comps : (st[c] = "err" /\ net.comps[c].with = 0) => \E o \in Outs(c) : E(o).pol = "T" /\ ~rx[o]
\* ... and Finish stops only when no output is left
FinishOnly == \A c \in Comps : (Moving(c) /\ st[c] = "run" /\ \E o \in Outs(c) : open[o] \/ E(o).pol = "C") =>
   \A e \in Ins(c) : ~rx[e] => (q[e] = <<>> /\ Proj(tk[c], e) = sent[e])

\* C12: the exit code comes after all output
ExitLast == \A c \in Comps : net.comps[c].kind = "exit" =>
   /\ st[c] = "ok" => \A d \in Prereq(c) : st[d] # "run"
   /\ \A o \in Outs(c) : Len(sent[o]) <= 1

\* C18: when all rests and the outside has taken all there was, nothing waits
Asking == \E c \in Comps : want[c] = "stop"
NoStuck == (Quiet /\ ~Asking /\ \A o \in EnvOuts : q[o] = <<>>) =>
   /\ \A e \in Edges : rx[e] => (q[e] = <<>> \/ E(e).dst = 0 \/ IsExit(e))
   /\ \A c \in Comps : hand[c] = <<>>

\* A resting state really rests, and an end is noticed.
RestIsRest == \A c \in Comps : (Resting(c) /\ Moving(c) /\ st[c] = "run" /\ want[c] = "go") =>
   \/ \E o \in Outs(c) : open[o] /\ Full(o)
   \/ ~ENABLED (CompStep(c) /\ hand' # hand)

----------------------------------------------------------------------------
\* Liveness (C11): when the outside closes its ends and takes all, all ends.
Fair == /\ \A c \in 1..5 : WF_allvars(c \in Comps /\ CompStep(c) /\ Histories /\ UNCHANGED <<dropped, ctl>>)
        /\ \A e \in 1..8 : WF_allvars(e \in Edges /\ e \in EnvIns /\ open[e] /\ EnvEnd(e) /\ UNCHANGED <<dropped, ctl>> /\ Histories)
        /\ \A e \in 1..8 : WF_allvars(e \in Edges /\ e \in EnvOuts /\ q[e] # <<>> /\ EnvRecv(e, Head(q[e])) /\ UNCHANGED <<dropped, ctl>> /\ Histories)
        /\ WF_allvars(\E c \in Comps : want[c] = "stop" /\ Resume(c) /\ UNCHANGED <<dropped, ctl>> /\ Histories)
LiveSpec == Spec /\ Fair
AllEnd == <>[](\A c \in Comps : st[c] # "run")
=============================================================================
