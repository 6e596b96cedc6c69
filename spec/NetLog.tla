------------------------------- MODULE NetLog -------------------------------
(***************************************************************************)
(* A whole network seen from its connections: what has been written to each *)
(* and not been passed on.  Only writes, and what the outside does, are     *)
(* steps; what components do in between is left open.  Regulators follow    *)
(* the sizes of the buffers they monitor.                                   *)
(*                                                                          *)
(* net.comps[c] = [kind]   faucet, launch, drain, junction, buffer,         *)
(*                         regulator                                        *)
(* net.edges[e] = [src, port, dst, pol, prio]                               *)
(* net.mon[r]   = [reg, bufs, low, high]                                    *)
(* net.pipe     how many messages fit into a program and the pipe before it *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

VARIABLES
  net,
  q,      \* q[e]      written to e and not passed on, or read
  src,    \* src[c][p] given to a source, or written by a program, and not sent on
  op,     \* op[c][p]  more of these may come
  hold,   \* hold[c]   the message a junction is copying, and the outputs it is not written to yet
  mode,   \* mode[k]   of the regulator of net.mon[k]: "go" or "stop"
  left,   \* left[k]   messages it may still pass on when stopped
  lo, hi, \* what may be reported of buffer c
  gone,   \* programs which stopped reading before their input ended
  early,  \* what may stop because of that
  over,   \* over[e][f]  messages taken from e while f was waiting
  got,    \* got[c]    written to a drain
  lag     \* whether the message a buffer is writing is counted as being in it (0) or not (1)
vars == <<net, q, src, op, hold, mode, left, lo, hi, gone, early, over, got, lag>>

Edges == DOMAIN net.edges
Comps == DOMAIN net.comps
Mons == DOMAIN net.mon
E(e) == net.edges[e]
Kind(c) == net.comps[c].kind
Ins(c) == {e \in Edges : E(e).dst = c}
Outs(c) == {e \in Edges : E(e).src = c}
Port(c, p) == {e \in Outs(c) : E(e).port = p}
Ports == {"out", "err", "exit"}
IsSource(c) == Kind(c) \in {"faucet", "launch"}

InitNet(n) ==
  /\ net = n
  /\ q = [e \in DOMAIN n.edges |-> <<>>]
  /\ src = [c \in DOMAIN n.comps |-> [p \in Ports |-> <<>>]]
  /\ op = [c \in DOMAIN n.comps |-> [p \in Ports |-> TRUE]]
  /\ hold = [c \in DOMAIN n.comps |-> <<>>]
  /\ mode = [k \in DOMAIN n.mon |-> "go"]
  /\ left = [k \in DOMAIN n.mon |-> 0]
  /\ lo = [c \in DOMAIN n.comps |-> 0]
  /\ hi = [c \in DOMAIN n.comps |-> 0]
  /\ gone = {}
  /\ early = {}
  /\ over = [x \in DOMAIN n.edges |-> [y \in DOMAIN n.edges |-> 0]]
  /\ got = [c \in DOMAIN n.comps |-> <<>>]
  /\ lag \in {0, 1}

----------------------------------------------------------------------------
(* Connections which break (as in Flow).                                    *)
BreaksAt(S, c, p) ==
  LET X == {e \in Edges : E(e).dst \in S} IN
     Port(c, p) # {} /\
     \/ \E e \in Port(c, p) : e \in X /\ E(e).pol = "T"
     \/ \A e \in Port(c, p) : e \in X /\ E(e).pol = "F"
Breaks(S, c) == \E p \in {"out", "err"} : BreaksAt(S, c, p)
RECURSIVE EarlyFrom(_)
EarlyFrom(S) == LET N == S \cup {c \in Comps : Breaks(S, c)} IN IF N = S THEN S ELSE EarlyFrom(N)
IntoEarly(e) == E(e).dst \in early

\* A junction has written its message to all who want it.
Copied(c) == IF hold[c] = <<>> THEN TRUE ELSE \A o \in hold[c][2] : IntoEarly(o)

Sum(f, S) == MapThenSumSet(LAMBDA x : f[x], S)
Bufs(k) == {net.mon[k].bufs[i] : i \in DOMAIN net.mon[k].bufs}
Lo == [c \in Comps |-> IF c \in early THEN 0 ELSE lo[c]]
MayStop(c) == \E k \in Mons : net.mon[k].reg = c /\ (mode[k] = "stop" \/ Sum(hi, Bufs(k)) >= net.mon[k].high)

\* Nothing more will be written to e, and that is known to its reader (after a while).  Loops go through programs.
\* A regulator which is stopped does not notice the end of its input.
RECURSIVE SureFrom(_), MayFrom(_)
SureFrom(S) ==
  LET N == S \cup {e \in Edges \ S : LET c == E(e).src IN
             IF IsSource(c) THEN ~op[c][E(e).port] /\ src[c][E(e).port] = <<>>
             ELSE (\A f \in Ins(c) : f \in S /\ q[f] = <<>>) /\ Copied(c) /\ ~MayStop(c)}
  IN IF N = S THEN S ELSE SureFrom(N)
SureOvers == SureFrom({})
\* The same, where things may have been cut short.
MayFrom(S) ==
  LET N == S \cup {e \in Edges \ S : LET c == E(e).src IN
             IF c \in early THEN TRUE
             ELSE IF IsSource(c) THEN ~op[c][E(e).port] /\ src[c][E(e).port] = <<>>
             ELSE (\A f \in Ins(c) : f \in S /\ q[f] = <<>>) /\ Copied(c)}
  IN IF N = S THEN S ELSE MayFrom(N)
MayOvers == MayFrom({})

Held(b) == LET n == MapThenSumSet(LAMBDA e : Len(q[e]), Ins(b)) IN IF n > 0 THEN n - lag ELSE 0

----------------------------------------------------------------------------
\* What c may write next: where it comes from is "f" (0: from outside).
Push(e, m, Q) ==
  /\ q' = IF Kind(E(e).dst) = "drain" THEN Q ELSE [Q EXCEPT ![e] = Append(@, m)]
  /\ got' = IF Kind(E(e).dst) = "drain" THEN [got EXCEPT ![E(e).dst] = Append(@, m)] ELSE got
  /\ hi' = IF Kind(E(e).dst) = "buffer" THEN [hi EXCEPT ![E(e).dst] = @ + 1] ELSE hi
  /\ lo' = IF Kind(E(e).src) = "buffer" /\ lo[E(e).src] > 0 THEN [lo EXCEPT ![E(e).src] = @ - 1] ELSE lo
Pop(f) == [q EXCEPT ![f] = Tail(@)]
HasHead(f, m) == q[f] # <<>> /\ Head(q[f]) = m

FromSource(e, m) ==
  LET c == E(e).src  p == E(e).port IN
  /\ src[c][p] # <<>> /\ Head(src[c][p]) = m
  \* the exit code comes last
  /\ (p = "exit" => \A r \in {"out", "err"} : (Port(c, r) = {} \/ src[c][r] = <<>> \/ c \in early)) = TRUE
  /\ src' = [src EXCEPT ![c][p] = Tail(@)]
  /\ Push(e, m, q)
  /\ UNCHANGED <<hold, over, mode, left>>

\* A regulator which was stopped passes one more message, or was let go: both are possible when what the buffers may have reported permits it.
Gate(c) ==
  LET K == {k \in Mons : net.mon[k].reg = c /\ mode[k] = "stop"} IN
  IF K = {} THEN UNCHANGED <<mode, left>>
  ELSE LET k == CHOOSE k \in K : TRUE IN
       \/ left[k] > 0 /\ left' = [left EXCEPT ![k] = @ - 1] /\ UNCHANGED mode
       \/ Sum(Lo, Bufs(k)) <= net.mon[k].low /\ mode' = [mode EXCEPT ![k] = "go"] /\ UNCHANGED left

Relay(e, m) ==
  LET c == E(e).src IN
  /\ \E f \in Ins(c) : HasHead(f, m) /\ Push(e, m, Pop(f))
  /\ Gate(c)
  /\ UNCHANGED <<hold, over, src>>

\* The next message of a junction, or another copy of the same.
Next1(c, e, m) ==
  /\ Copied(c) = TRUE
  /\ \E f \in Ins(c) :
       /\ HasHead(f, m)
       /\ Push(e, m, Pop(f))
       /\ over' = [x \in Edges |-> IF E(x).dst # c THEN over[x]
                     ELSE [y \in Edges |-> IF y = f \/ E(y).dst # c THEN 0
                                           ELSE IF q[y] = <<>> THEN 0
                                           ELSE IF x = f THEN over[x][y] + 1 ELSE over[x][y]]]
       \* what was waiting was not passed over again and again
       /\ (c \in early \/ \A y \in Edges : over'[f][y] <=
             (IF E(f).prio > E(y).prio THEN 2 ELSE IF E(f).prio = E(y).prio THEN 3 ELSE over'[f][y])) = TRUE
  /\ hold' = [hold EXCEPT ![c] = IF Outs(c) = {e} THEN <<>> ELSE <<m, Outs(c) \ {e}>>]
Copy(c, e, m) ==
  /\ hold[c] # <<>> /\ hold[c][1] = m /\ e \in hold[c][2]
  /\ hold' = [hold EXCEPT ![c] = IF @[2] = {e} THEN <<>> ELSE <<m, @[2] \ {e}>>]
  /\ Push(e, m, q)
  /\ UNCHANGED over
Junction(e, m) ==
  LET c == E(e).src IN
  /\ Next1(c, e, m) \/ Copy(c, e, m)
  /\ UNCHANGED <<src, mode, left>>

Write(e, m) ==
  /\ CASE IsSource(E(e).src) -> FromSource(e, m)
       [] Kind(E(e).src) = "junction" -> Junction(e, m)
       [] OTHER -> Relay(e, m)
  /\ UNCHANGED <<net, op, gone, early, lag>>

----------------------------------------------------------------------------
(* The outside.                                                             *)
Say(c, p, m) ==
  /\ src' = IF Port(c, p) = {} THEN src ELSE [src EXCEPT ![c][p] = Append(@, m)]
  /\ UNCHANGED <<net, q, op, hold, mode, left, lo, hi, gone, early, over, got, lag>>
\* it could not write that: nobody reads any more
Failed(c, m) ==
  /\ c \in early
  /\ \E p \in {"out", "err"} : src[c][p] # <<>> /\ src[c][p][Len(src[c][p])] = m
        /\ src' = [src EXCEPT ![c][p] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<net, q, op, hold, mode, left, lo, hi, gone, early, over, got, lag>>
Shut(c, P) ==
  /\ op' = [op EXCEPT ![c] = [p \in Ports |-> @[p] /\ p \notin P]]
  /\ UNCHANGED <<net, q, src, hold, mode, left, lo, hi, gone, early, over, got, lag>>
Leaves(c) ==
  /\ gone' = IF \A e \in Ins(c) : e \in SureOvers /\ q[e] = <<>> THEN gone ELSE gone \cup {c}
  /\ early' = EarlyFrom(gone')
CloseIn(c) ==
  /\ Leaves(c)
  /\ UNCHANGED <<net, q, src, op, hold, mode, left, lo, hi, over, got, lag>>
Exit(c, m) ==
  /\ Leaves(c)
  /\ op' = [op EXCEPT ![c] = [p \in Ports |-> FALSE]]
  /\ src' = IF Port(c, "exit") = {} THEN src ELSE [src EXCEPT ![c]["exit"] = Append(@, m)]
  /\ UNCHANGED <<net, q, hold, mode, left, lo, hi, over, got, lag>>
Take(c, m) ==
  /\ \E f \in Ins(c) : HasHead(f, m) /\ q' = Pop(f)
  /\ UNCHANGED <<net, src, op, hold, mode, left, lo, hi, gone, early, over, got, lag>>
\* A program found its input empty, after a while.
Empty(c) == Ins(c) # {} /\ (LET S == SureOvers IN \A f \in Ins(c) : q[f] = <<>> /\ f \notin S) /\ UNCHANGED vars
Eof(c) == (LET S == MayOvers IN \A f \in Ins(c) : q[f] = <<>> /\ f \in S) /\ UNCHANGED vars

----------------------------------------------------------------------------
(* Nothing happens any more.                                                *)

\* what a component other than a buffer may hold; net.pipe: messages which fit into a pipe
Bound(e) == 70 + (IF Kind(E(e).dst) = "launch" THEN net.pipe ELSE 0)

\* c has something to pass on
Waiting(c) == \/ \E f \in Ins(c) : q[f] # <<>>
              \/ \E p \in Ports : src[c][p] # <<>>
Blocked(c) == \E o \in Outs(c) : q[o] # <<>> /\ Kind(E(o).dst) # "buffer"
Stopped(c, md) == \E k \in Mons : net.mon[k].reg = c /\ md[k] = "stop"
\* a source or a program: each port by itself
Stuck(c, md) ==
  CASE Kind(c) = "drain" -> FALSE
    [] IsSource(c) -> \E p \in Ports :
         /\ src[c][p] # <<>>
         /\ \A o \in Port(c, p) : q[o] = <<>> \/ Kind(E(o).dst) = "buffer"
         /\ p = "exit" => (src[c]["out"] = <<>> /\ src[c]["err"] = <<>> /\ (LET S == SureOvers IN \A f \in Ins(c) : q[f] = <<>> /\ f \in S))
    [] OTHER -> \/ Waiting(c) /\ ~Blocked(c) /\ ~Stopped(c, md)
                \* one output which is not taken from holds the others up
                \/ ~Copied(c) /\ \A o \in hold[c][2] : q[o] = <<>> \/ (Kind(E(o).dst) = "buffer" /\ ~IntoEarly(o))
Flows(md) == \A c \in Comps : c \in early \/ ~Stuck(c, md)

\* Everything outside has ended.
Left(c) == IF Kind(c) = "faucet" THEN ~op[c]["out"] ELSE Kind(c) = "launch" => ~op[c]["exit"]
AllOver == \A c \in Comps : Left(c)
MayBeOver == \A c \in Comps : Left(c) \/ (Kind(c) = "faucet" /\ c \in early)

Quiet(fut) ==
  \* (bound like this so that they are computed once)
  \E shi \in {[c \in Comps |-> IF Kind(c) = "buffer" THEN Held(c) ELSE 0]} :
  \E slo \in {[c \in Comps |-> IF c \in early THEN 0 ELSE shi[c]]} :
  LET Ok(k, was, now) ==
        /\ (was = "go" /\ now = "stop") => Sum(hi, Bufs(k)) >= net.mon[k].high
        /\ (was = "stop" /\ now = "go") => Sum(Lo, Bufs(k)) <= net.mon[k].low
        /\ Sum(slo, Bufs(k)) >= net.mon[k].high => now = "stop"
        /\ Sum(shi, Bufs(k)) <= net.mon[k].low => now = "go"
  IN IF fut = "run"
     THEN /\ ~AllOver
          /\ \E md \in [Mons -> {"go", "stop"}] :
               /\ (\A k \in Mons : Ok(k, mode[k], md[k])) = TRUE
               /\ Flows(md) = TRUE
               /\ mode' = md
               /\ left' = [k \in Mons |-> IF mode[k] = "go" /\ md[k] = "stop" THEN 1 ELSE left[k]]
          /\ (\A e \in Edges : Kind(E(e).dst) = "buffer" \/ IntoEarly(e) \/ Len(q[e]) <= Bound(e)) = TRUE
          /\ lo' = slo /\ hi' = shi
          /\ UNCHANGED <<net, q, src, op, hold, gone, early, over, got, lag>>
     ELSE \* it has ended: nothing is left behind
          /\ MayBeOver = TRUE
          /\ (fut = "ok" \/ (fut = "err" /\ \E e \in Edges : E(e).pol = "T" /\ IntoEarly(e))) = TRUE
          /\ (\A c \in Comps : c \in early \/ (Kind(c) = "drain" \/ ~Waiting(c))) = TRUE
          /\ UNCHANGED vars
=============================================================================
