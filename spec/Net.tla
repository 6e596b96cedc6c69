-------------------------------- MODULE Net --------------------------------
(***************************************************************************)
(* The run time of pipeawesome2: components which pass messages through     *)
(* bounded channels.  One description of a network (`net`) is a constant    *)
(* of a behaviour; everything else is its state.                            *)
(*                                                                          *)
(*   net.edges[e] = [src, dst, cap, pol, prio]   src / dst 0: environment   *)
(*        cap   capacity of the channel, -1 when there is no limit          *)
(*        pol   "T" Terminate, "F" Finish, "C" Consume: what the sender     *)
(*              does when the receiving end is closed                       *)
(*        prio  priority at the receiving component (smaller goes first)    *)
(*   net.comps[c] = [kind, gate]                                            *)
(*        kind  "relay" takes a message, writes it to its outputs           *)
(*              "junction" the same for several inputs, in passes           *)
(*              "exit" writes one message after its prerequisites ended     *)
(*              "sieve" a program in a loop, see Targets                    *)
(*        gate  TRUE for a regulator which has a control                    *)
(*        exitof  the "exit" component which waits for this one, or 0       *)
(*        with  the second half of the buffer of which this is the first    *)
(*                                                                          *)
(* The mapping to the code: faucet = relay (source -> channel), drain =     *)
(* relay (channel -> file), regulator = relay with a gate, buffer = two     *)
(* relays with an unbounded edge between them, launch = one relay for each  *)
(* of stdin, stdout and stderr plus an "exit" component.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  net,     \* the network, never changes
  q,       \* q[e]     messages in the channel
  open,    \* open[e]  FALSE once either end closed it
  rx,      \* rx[e]    FALSE once the receiving end has gone
  st,      \* st[c]    "run", "ok" or "err"
  hand,    \* hand[c]  the message which is being written: <<>> or <<m>>
  pend,    \* pend[c]  outputs to which that is not written yet
  dead,    \* dead[c]  Finish outputs found closed for that message
  from,    \* from[c]  the input it came from
  live,    \* live[c]  inputs which have not ended
  pleft,   \* pleft[c] inputs left in the pass over one priority
  want,    \* want[c]  "go" or "stop": the last request to a regulator
  budget,  \* budget[c] messages it may still forward after "stop"
  wlog     \* writes since the last observation (only in traces with a spy)

vars == <<net, q, open, rx, st, hand, pend, dead, from, live, pleft, want,
          budget, wlog>>

----------------------------------------------------------------------------
Edges  == DOMAIN net.edges
Comps  == DOMAIN net.comps
E(e)   == net.edges[e]
Ins(c)  == {e \in Edges : E(e).dst = c}
Outs(c) == {e \in Edges : E(e).src = c}
Full(e) == E(e).cap >= 0 /\ Len(q[e]) >= E(e).cap
EnvIns  == {e \in Edges : E(e).src = 0}
EnvOuts == {e \in Edges : E(e).dst = 0}

InitNet(n) ==
  /\ net = n
  /\ q = [e \in DOMAIN n.edges |-> <<>>]
  /\ open = [e \in DOMAIN n.edges |-> TRUE]
  /\ rx = [e \in DOMAIN n.edges |-> TRUE]
  /\ st = [c \in DOMAIN n.comps |-> "run"]
  /\ hand = [c \in DOMAIN n.comps |-> <<>>]
  /\ pend = [c \in DOMAIN n.comps |-> {}]
  /\ dead = [c \in DOMAIN n.comps |-> {}]
  /\ from = [c \in DOMAIN n.comps |-> 0]
  /\ live = [c \in DOMAIN n.comps |-> {e \in DOMAIN n.edges : n.edges[e].dst = c}]
  /\ pleft = [c \in DOMAIN n.comps |-> {}]
  /\ want = [c \in DOMAIN n.comps |-> "go"]
  /\ budget = [c \in DOMAIN n.comps |-> 0]
  /\ wlog = <<>>

----------------------------------------------------------------------------
(* What a component does.                                                   *)

Working(c) == st[c] = "run" /\ net.comps[c].kind # "exit"
Idle(c)    == Working(c) /\ hand[c] = <<>>

\* A regulator which was asked to stop lets one more message through at most.
GateOpen(c) == net.comps[c].gate => (want[c] = "go" \/ budget[c] > 0)

SamePrio(c, e) == {f \in live[c] : E(f).prio = E(e).prio}
NoneHigher(c, e) ==
  \A f \in live[c] : E(f).prio < E(e).prio => q[f] = <<>>

\* A message may be taken from e: as part of the pass which is going on, or
\* by starting a new pass over the inputs of this priority, which needs that
\* no input of a smaller priority number has a message waiting.
MayTake(c, e) ==
  /\ Idle(c) /\ e \in live[c] /\ q[e] # <<>> /\ GateOpen(c)
  /\ \/ e \in pleft[c]
     \/ pleft[c] = {} /\ NoneHigher(c, e)

\* A "sieve" is a program in a loop: what it sees for the first time (below
\* 100) goes back into the loop, marked, the rest leaves.
Targets(c, m) ==
  IF net.comps[c].kind = "sieve" THEN {o \in Outs(c) : (E(o).dst = 0) <=> (m >= 100)}
  ELSE Outs(c)
Made(c, m) == IF net.comps[c].kind = "sieve" /\ m < 100 THEN m + 100 ELSE m

Take(c, e) ==
  /\ MayTake(c, e)
  /\ hand' = [hand EXCEPT ![c] = <<Made(c, Head(q[e]))>>]
  /\ q' = [q EXCEPT ![e] = Tail(@)]
  /\ pend' = [pend EXCEPT ![c] = Targets(c, Head(q[e]))]
  /\ dead' = [dead EXCEPT ![c] = {}]
  /\ from' = [from EXCEPT ![c] = e]
  /\ pleft' = [pleft EXCEPT ![c] =
                 IF e \in @ THEN @ \ {e} ELSE SamePrio(c, e) \ {e}]
  /\ UNCHANGED <<net, open, rx, st, live, want, budget, wlog>>

\* Nothing is waiting on an input of the pass.
Skip(c, e) ==
  /\ Idle(c) /\ e \in pleft[c] /\ q[e] = <<>>
  /\ pleft' = [pleft EXCEPT ![c] = @ \ {e}]
  /\ UNCHANGED <<net, q, open, rx, st, hand, pend, dead, from, live, want,
                 budget, wlog>>

\* An input has ended: its channel is closed and empty.
Eof(c, e) ==
  /\ Idle(c) /\ e \in live[c] /\ q[e] = <<>> /\ ~open[e] /\ GateOpen(c)
  /\ live' = [live EXCEPT ![c] = @ \ {e}]
  /\ pleft' = [pleft EXCEPT ![c] = @ \ {e}]
  /\ rx' = [rx EXCEPT ![e] = FALSE]
  /\ UNCHANGED <<net, q, open, st, hand, pend, dead, from, want, budget, wlog>>

\* All inputs have ended: the outputs are closed.
End(c) ==
  /\ Idle(c) /\ live[c] = {}
  /\ st' = [st EXCEPT ![c] = "ok"]
  /\ open' = [e \in Edges |-> open[e] /\ e \notin Outs(c)]
  /\ UNCHANGED <<net, q, rx, hand, pend, dead, from, live, pleft, want, budget,
                 wlog>>

\* The bookkeeping after the last output of a message was dealt with.
Settled(c, deadset) ==
  LET stop == Outs(c) # {} /\ deadset = Outs(c) IN
  /\ hand' = [hand EXCEPT ![c] = <<>>]
  /\ budget' = [budget EXCEPT ![c] = 0]
  /\ IF stop
     THEN /\ live' = [live EXCEPT ![c] = @ \ {from[c]}]
          /\ pleft' = [pleft EXCEPT ![c] = @ \ {from[c]}]
          /\ rx' = [rx EXCEPT ![from[c]] = FALSE]
          /\ open' = [open EXCEPT ![from[c]] = FALSE]
          /\ q' = [q EXCEPT ![from[c]] = <<>>]
     ELSE UNCHANGED <<live, pleft, rx, open, q>>

\* A message which goes nowhere is done with at once.
WriteNone(c) ==
  /\ Working(c) /\ hand[c] # <<>> /\ pend[c] = {}
  /\ Settled(c, dead[c])
  /\ UNCHANGED <<net, st, pend, dead, from, want, wlog>>

Write(c, o) ==
  /\ Working(c) /\ hand[c] # <<>> /\ o \in pend[c]
  /\ open[o] /\ ~Full(o)
  /\ q' = [q EXCEPT ![o] = Append(@, hand[c][1])]
  /\ pend' = [pend EXCEPT ![c] = @ \ {o}]
  /\ wlog' = IF net.spy /\ E(o).cap >= 0 THEN Append(wlog, <<o, hand[c][1]>>) ELSE wlog
  /\ UNCHANGED <<net, open, rx, st, hand, dead, from, live, pleft, want, budget>>

\* The receiving end has closed.
WriteClosed(c, o) ==
  /\ Working(c) /\ hand[c] # <<>> /\ o \in pend[c]
  /\ ~open[o] /\ E(o).pol \in {"F", "C"}
  /\ pend' = [pend EXCEPT ![c] = @ \ {o}]
  /\ dead' = IF E(o).pol = "F" THEN [dead EXCEPT ![c] = @ \cup {o}] ELSE dead
  /\ UNCHANGED <<net, q, open, rx, st, hand, from, live, pleft, want, budget,
                 wlog>>

\* ... and the connection says Terminate: the component fails.
WriteBroken(c, o) ==
  /\ Working(c) /\ hand[c] # <<>> /\ o \in pend[c]
  /\ ~open[o] /\ E(o).pol = "T"
  /\ st' = [st EXCEPT ![c] = "err"]
  /\ hand' = [hand EXCEPT ![c] = <<>>]
  /\ pend' = [pend EXCEPT ![c] = {}]
  /\ rx' = [e \in Edges |-> rx[e] /\ e \notin live[c]]
  /\ q' = [e \in Edges |-> IF e \in live[c] THEN <<>> ELSE q[e]]
  /\ open' = [e \in Edges |-> open[e] /\ e \notin live[c] /\ e \notin Outs(c)]
  /\ live' = [live EXCEPT ![c] = {}]
  /\ pleft' = [pleft EXCEPT ![c] = {}]
  /\ UNCHANGED <<net, dead, from, want, budget, wlog>>

\* When no output accepts any more under Finish, a component may also drop an
\* input before it gets a message from it.
DropIn(c, e) ==
  /\ Idle(c) /\ e \in live[c] /\ Outs(c) # {}
  /\ \A o \in Outs(c) : ~open[o] /\ E(o).pol = "F"
  /\ live' = [live EXCEPT ![c] = @ \ {e}]
  /\ pleft' = [pleft EXCEPT ![c] = @ \ {e}]
  /\ rx' = [rx EXCEPT ![e] = FALSE]
  /\ open' = [open EXCEPT ![e] = FALSE]
  /\ q' = [q EXCEPT ![e] = <<>>]
  /\ UNCHANGED <<net, st, hand, pend, dead, from, want, budget, wlog>>

\* The exit code of a program, after all else of the launch has ended.  It
\* comes in, once, on the only input of the "exit" component.
Prereq(c) == {d \in Comps : net.comps[d].exitof = c}
MayExit(c) ==
  /\ net.comps[c].kind = "exit" /\ st[c] = "run"
  /\ \A d \in Prereq(c) : st[d] # "run"
  /\ \E e \in Ins(c) : q[e] # <<>>
ExitSend(c) ==
  /\ MayExit(c)
  /\ LET i == CHOOSE e \in Ins(c) : q[e] # <<>>
         m == Head(q[i])
         broken == \E o \in Outs(c) : ~open[o] /\ E(o).pol = "T" IN
     /\ st' = [st EXCEPT ![c] = IF broken THEN "err" ELSE "ok"]
     /\ q' = [e \in Edges |-> IF e = i THEN <<>>
                             ELSE IF e \in Outs(c) /\ open[e] THEN Append(q[e], m) ELSE q[e]]
     /\ wlog' = IF net.spy /\ Outs(c) # {} /\ ~broken
                THEN Append(wlog, <<CHOOSE o \in Outs(c) : TRUE, m>>) ELSE wlog
  /\ open' = [e \in Edges |-> open[e] /\ e \notin Outs(c) /\ e \notin Ins(c)]
  /\ rx' = [e \in Edges |-> rx[e] /\ e \notin Ins(c)]
  /\ live' = [live EXCEPT ![c] = {}]
  /\ UNCHANGED <<net, hand, pend, dead, from, pleft, want, budget>>

\* The second half of a buffer has ended before the first: nothing more can
\* be delivered, so the first stops.
Follow(c) ==
  /\ net.comps[c].with # 0 /\ st[c] = "run" /\ st[net.comps[c].with] # "run"
  /\ st' = [st EXCEPT ![c] = st[net.comps[c].with]]
  /\ hand' = [hand EXCEPT ![c] = <<>>]
  /\ pend' = [pend EXCEPT ![c] = {}]
  /\ rx' = [e \in Edges |-> rx[e] /\ e \notin live[c]]
  /\ q' = [e \in Edges |-> IF e \in live[c] THEN <<>> ELSE q[e]]
  /\ open' = [e \in Edges |-> open[e] /\ e \notin live[c] /\ e \notin Outs(c)]
  /\ live' = [live EXCEPT ![c] = {}]
  /\ pleft' = [pleft EXCEPT ![c] = {}]
  /\ UNCHANGED <<net, dead, from, want, budget, wlog>>
FollowNow(c) == net.comps[c].with # 0 /\ st[net.comps[c].with] # "run"

CompStep(c) ==
  \/ \E e \in live[c] : Take(c, e) \/ Skip(c, e) \/ Eof(c, e) \/ DropIn(c, e)
  \/ \E o \in pend[c] : Write(c, o) \/ WriteClosed(c, o) \/ WriteBroken(c, o)
  \/ WriteNone(c)
  \/ End(c)
  \/ Follow(c)
  \/ ExitSend(c)

----------------------------------------------------------------------------
(* Nothing more is to be expected from c unless the environment moves: it   *)
(* has ended, or waits for room, or for a message, or at a closed gate.     *)
Resting(c) == st[c] # "run" \/ (~FollowNow(c) /\
  ( \/ net.comps[c].kind = "exit" /\ ~MayExit(c)
    \/ hand[c] # <<>> /\ \E o \in pend[c] : open[o] /\ Full(o)
    \/ Idle(c) /\ \E o \in Outs(c) : open[o] /\ Full(o)
    \/ Idle(c) /\ net.comps[c].gate /\ want[c] = "stop"
    \/ Idle(c) /\ live[c] # {} /\ \A e \in live[c] : q[e] = <<>> /\ open[e]))
Quiet == \A c \in Comps : Resting(c)

----------------------------------------------------------------------------
(* The environment.                                                         *)
EnvSend(e, m) ==
  /\ e \in EnvIns /\ open[e] /\ ~Full(e)
  /\ q' = [q EXCEPT ![e] = Append(@, m)]
  /\ UNCHANGED <<net, open, rx, st, hand, pend, dead, from, live, pleft, want, budget, wlog>>

EnvClose(e) ==
  /\ e \in EnvIns /\ open' = [open EXCEPT ![e] = FALSE]
  /\ UNCHANGED <<net, q, rx, st, hand, pend, dead, from, live, pleft, want, budget, wlog>>

EnvRecv(e, m) ==
  /\ e \in EnvOuts /\ rx[e] /\ q[e] # <<>> /\ m = Head(q[e])
  /\ q' = [q EXCEPT ![e] = Tail(@)]
  /\ UNCHANGED <<net, open, rx, st, hand, pend, dead, from, live, pleft, want, budget, wlog>>

EnvDrop(e) ==
  /\ e \in EnvOuts /\ rx[e]
  /\ rx' = [rx EXCEPT ![e] = FALSE]
  /\ open' = [open EXCEPT ![e] = FALSE]
  /\ q' = [q EXCEPT ![e] = <<>>]
  /\ UNCHANGED <<net, st, hand, pend, dead, from, live, pleft, want, budget, wlog>>

\* The one more message counts from the moment of the request; asking again
\* changes nothing.
Pause(c) ==
  /\ want' = [want EXCEPT ![c] = "stop"]
  /\ budget' = [budget EXCEPT ![c] = IF want[c] = "stop" THEN @ ELSE 1]
  /\ UNCHANGED <<net, q, open, rx, st, hand, pend, dead, from, live, pleft, wlog>>

Resume(c) ==
  /\ want' = [want EXCEPT ![c] = "go"]
  /\ budget' = [budget EXCEPT ![c] = 0]
  /\ UNCHANGED <<net, q, open, rx, st, hand, pend, dead, from, live, pleft, wlog>>

----------------------------------------------------------------------------
TypeOK ==
  /\ \A e \in Edges : E(e).cap >= 0 => Len(q[e]) <= E(e).cap
  /\ \A c \in Comps : st[c] \in {"run", "ok", "err"} /\ Len(hand[c]) <= 1
  /\ \A c \in Comps : pend[c] \subseteq Outs(c) /\ live[c] \subseteq Ins(c)
                      /\ pleft[c] \subseteq live[c]
  /\ \A e \in Edges : ~rx[e] => ~open[e]
=============================================================================
