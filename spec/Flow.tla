-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* What may be seen when a configuration has been run, from its text and    *)
(* the behaviour of its programs.                                           *)
(*                                                                          *)
(* r.comps[c] = [t, own, pass, bad, quits, seen, got, ...]                   *)
(*    t      type                                                           *)
(*    own    [out, err, exit]: what it sends of its own on each port         *)
(*    pass   ports on which it sends what comes in                           *)
(*    bad    it cannot start: its file cannot be opened                      *)
(*    full   (with bad) it can, but what it has to write first fails         *)
(*    quits  it may stop reading before its input ends                       *)
(*    seen   a drain of which got, the messages it holds, is known           *)
(* r.edges[e] = [src, port, dst, br]   the connections as written            *)
(* r.sure     a Terminate connection is sure to break                       *)
(* r.status   "ok", "error", "hang"                                         *)
(* r.lines    the error report: [src, dst] of each line, where 0 stands for *)
(*            a component which is not in the configuration and -1 for none *)
(* r.extra    bytes on standard output or standard error which belong to    *)
(*            no drain                                                      *)
(* The network has no loops; messages are all different (within own).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ports == {"out", "err", "exit"}
C(r) == DOMAIN r.comps
OutOf(r, c, p) == {e \in DOMAIN r.edges : r.edges[e].src = c /\ r.edges[e].port = p}
From(r, c) == {e \in DOMAIN r.edges : r.edges[e].src = c}
Into(r, c) == {e \in DOMAIN r.edges : r.edges[e].dst = c}
Passes(r, c) == {r.comps[c].pass[k] : k \in DOMAIN r.comps[c].pass}

\* the number of ways from an output to a component
RECURSIVE Ways(_, _, _, _), SumE(_, _, _), SumP(_, _, _, _)
SumP(r, c, P, d) == IF P = {} THEN 0 ELSE LET p == CHOOSE p \in P : TRUE IN Ways(r, c, p, d) + SumP(r, c, P \ {p}, d)
SumE(r, S, d) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN
                   (IF r.edges[e].dst = d THEN 1 ELSE SumP(r, r.edges[e].dst, Passes(r, r.edges[e].dst), d)) + SumE(r, S \ {e}, d)
Ways(r, c, p, d) == SumE(r, OutOf(r, c, p), d)

\* components downstream of an output
RECURSIVE Reach(_, _)
Reach(r, S) == LET N == S \cup {r.edges[e].dst : e \in {e \in DOMAIN r.edges : r.edges[e].src \in S /\ r.edges[e].port \in Passes(r, r.edges[e].src)}}
               IN IF N = S THEN S ELSE Reach(r, N)
After(r, c, p) == Reach(r, {r.edges[e].dst : e \in OutOf(r, c, p)})
\* on a way from an output to a component
Between(r, c, p, d) == {x \in After(r, c, p) : x = d \/ d \in UNION {After(r, x, y) : y \in Passes(r, x)}}

----------------------------------------------------------------------------
(* What can be cut short.  Early: components which may close their inputs   *)
(* before these have ended.                                                 *)
ClosedE(r, S) == {e \in DOMAIN r.edges : r.edges[e].dst \in S}
BreaksAt(r, S, c, p) ==
  LET X == ClosedE(r, S) IN
     OutOf(r, c, p) # {} /\
     \/ \E e \in OutOf(r, c, p) : e \in X /\ r.edges[e].br = "terminate"
     \/ \A e \in OutOf(r, c, p) : e \in X /\ r.edges[e].br = "finish"
\* a launch goes on when nobody wants its exit code
Breaks(r, S, c) == \E p \in {"out", "err"} : BreaksAt(r, S, c, p)
Bad(r) == {c \in C(r) : r.comps[c].bad /\ From(r, c) \cup Into(r, c) # {}}
RECURSIVE EarlyFrom(_, _)
EarlyFrom(r, S) == LET N == S \cup {c \in C(r) : Breaks(r, S, c)} IN IF N = S THEN S ELSE EarlyFrom(r, N)
EarlyBut(r, d) == EarlyFrom(r, (Bad(r) \ {d}) \cup {c \in C(r) : r.comps[c].quits})
Early(r) == EarlyBut(r, 0)
\* Those which stop, so that what they send may be incomplete.
CutBut(r, d) == (Bad(r) \ {d}) \cup {c \in C(r) : Breaks(r, EarlyBut(r, d), c)}
Cut(r) == CutBut(r, 0)
\* a full drain fails if something must reach it, and may if anything does
Origins(r) == {<<c, p>> \in C(r) \X Ports : r.comps[c].own[p] # <<>>}
Due(r, d) == \E o \in Origins(r) :
  LET X == Between(r, o[1], o[2], d) IN
     /\ d \in After(r, o[1], o[2]) /\ o[2] # "exit" /\ o[1] \notin CutBut(r, d) /\ X \cap CutBut(r, d) = {} /\ \A x \in X : ~r.comps[x].quits
Fails(r) == {c \in Bad(r) : r.comps[c].full => Due(r, c)}
MayFail(r) == Bad(r) \cup {c \in C(r) : \E e \in From(r, c) : r.edges[e].dst \in Early(r) /\ r.edges[e].br = "terminate"}
\* several connections of one output leave it through a junction, and that is the one which fails
Shared(r) == \E c \in MayFail(r), p \in Ports : Cardinality(OutOf(r, c, p)) > 1
             \/ \E e \in DOMAIN r.edges : r.edges[e].dst \in Early(r) /\ Cardinality(Into(r, r.edges[e].dst)) > 1

----------------------------------------------------------------------------
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
Rng(s) == {s[k] : k \in DOMAIN s}
FirstOf(s, x) == CHOOSE k \in DOMAIN s : s[k] = x /\ \A m \in DOMAIN s : s[m] = x => k <= m
LastOf(s, x) == CHOOSE k \in DOMAIN s : s[k] = x /\ \A m \in DOMAIN s : s[m] = x => k >= m
Increasing(f, n) == \A k \in 1..(n - 1) : f[k] < f[k + 1]

\* a drain holds what was sent to it, in order, and all of it unless something on the way stopped
Holds(r, d) ==
  LET got == r.comps[d].got
      O == {o \in Origins(r) : d \in After(r, o[1], o[2])}
      Sent(o) == r.comps[o[1]].own[o[2]]
  IN /\ Rng(got) \subseteq UNION {Rng(Sent(o)) : o \in O}
     /\ \A o \in O :
          LET w == Ways(r, o[1], o[2], d)
              s == Sent(o)
              \* a component which fails closes what it has, but a launch sends its exit code still (alone the junction which shares it out can fail)
              whole == /\ Between(r, o[1], o[2], d) \cap Cut(r) = {}
                       /\ IF o[2] = "exit" THEN ~(Cardinality(OutOf(r, o[1], "exit")) > 1 /\ BreaksAt(r, Early(r), o[1], "exit")) ELSE o[1] \notin Cut(r)
                       /\ \A x \in Between(r, o[1], o[2], d) : x # d => ~r.comps[x].quits
              n == IF whole THEN Len(s) ELSE Cardinality(Rng(s) \cap Rng(got))
          IN /\ \A k \in 1..Len(s) : LET k1 == Count(got, s[k]) IN
                  /\ k1 <= w
                  /\ whole => k1 = w
             \* a beginning of what was sent
             /\ \A k \in 1..Len(s) : (k <= n) <=> (Count(got, s[k]) > 0)
             /\ Increasing([k \in 1..n |-> FirstOf(got, s[k])], n)
             \* the same along each way (ways may end early, so that only messages which came the same ways compare)
             /\ \A k \in 1..(n - 1) : Count(got, s[k]) = Count(got, s[k + 1]) => LastOf(got, s[k]) < LastOf(got, s[k + 1])

\* What leaves one output is in the same order for everybody.
Proj(s, X) == SelectSeq(s, LAMBDA x : x \in X)
Through(r, c, p) == UNION ({Rng(r.comps[o[1]].own[o[2]]) : o \in {o \in Origins(r) : p \in Passes(r, c) /\ c \in After(r, o[1], o[2])}}
                           \cup {Rng(r.comps[c].own[p])})
\* messages which reach d in one way only, and that through this output
Only(r, c, p, d) == {x \in Through(r, c, p) :
   \E o \in Origins(r) : x \in Rng(r.comps[o[1]].own[o[2]]) /\ Ways(r, o[1], o[2], d) = 1
      /\ (IF o = <<c, p>> THEN TRUE ELSE Ways(r, c, p, d) = 1 /\ c \in Between(r, o[1], o[2], d))}
SameOrder(r) ==
  LET D == {d \in C(r) : r.comps[d].t = "drain" /\ r.comps[d].seen} IN
  \A c \in C(r), p \in {"out", "err"} : Cardinality(OutOf(r, c, p)) > 0 =>
    \A d1, d2 \in D : d1 < d2 =>
      LET X == Only(r, c, p, d1) \cap Only(r, c, p, d2)
          a == Proj(r.comps[d1].got, X)  b == Proj(r.comps[d2].got, X)
          n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      IN X = {} \/ SubSeq(a, 1, n) = SubSeq(b, 1, n)

\* the outcome of the run
Status(r) ==
  /\ r.status \in {"ok", "error"}
  /\ Fails(r) # {} \/ r.sure => r.status = "error"
  /\ MayFail(r) = {} => r.status = "ok"
Named(l) == {l.src, l.dst}
Naming(r) ==
  /\ (r.status = "error") <=> (r.lines # <<>>)
  /\ \A c \in Fails(r) : \E k \in DOMAIN r.lines : c \in Named(r.lines[k])
  /\ \A k \in DOMAIN r.lines :
       \/ Named(r.lines[k]) \cap MayFail(r) # {}
       \/ Shared(r) /\ 0 \in Named(r.lines[k])

\* Every program which is in a connection was started once and had ended when pa2 did, the others were not started.
Programs(r) == \A c \in C(r) : r.comps[c].t = "launch" /\ r.comps[c].marked =>
  LET n == IF From(r, c) \cup Into(r, c) = {} THEN 0 ELSE 1 IN r.comps[c].began = n /\ r.comps[c].ended = n

Why(r) ==
  IF ~Status(r) THEN "status"
  ELSE IF r.extra THEN "bytes which belong to no drain"
  ELSE IF ~Naming(r) THEN "names"
  ELSE IF \E d \in C(r) : r.comps[d].t = "drain" /\ r.comps[d].seen /\ ~Holds(r, d) THEN "data"
  ELSE IF ~SameOrder(r) THEN "order"
  ELSE IF ~Programs(r) THEN "programs"
  ELSE "fine"
Right(r) == Why(r) = "fine"
=============================================================================
