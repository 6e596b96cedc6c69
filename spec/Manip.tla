------------------------------- MODULE Manip -------------------------------
(***************************************************************************)
(* What is done to a configuration before it is run.                        *)
(*                                                                          *)
(* An edge is [src, port, dst, br, pr]: components <<type, name>>, the       *)
(* output port, the policy and the priority.  U are the edges as the user   *)
(* wrote them, R the edges which are run.  R may contain further junctions  *)
(* (a component has one edge per output and, unless it is a junction, one   *)
(* edge in) and drains which wait for the exit of programs.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CompsOf(E) == UNION {{E[i].src, E[i].dst} : i \in DOMAIN E}
Added(U, R) == CompsOf(R) \ CompsOf(U)
AddedJ(U, R) == {c \in Added(U, R) : c[1] = "junction"}

Launches(U) == {c \in CompsOf(U) : c[1] = "launch"}
Watched(U) == {l \in Launches(U) : \A i \in DOMAIN U : ~(U[i].src = l /\ U[i].port = "exit")}

\* the ways through added junctions which begin with edge i, as sets of edges
RECURSIVE Ways(_, _, _, _)
Ways(R, New, i, fuel) ==
  IF R[i].dst \notin New THEN {<<i>>}
  ELSE IF fuel = 0 THEN {}
  ELSE UNION {{<<i>> \o w : w \in Ways(R, New, j, fuel - 1)} : j \in {j \in DOMAIN R : R[j].src = R[i].dst}}
AllWays(R, New) == UNION {Ways(R, New, i, Cardinality(New)) : i \in {i \in DOMAIN R : R[i].src \notin New}}

\* the edge of a way which speaks for the user's edge: no other way uses it
Own(ways, w) == {k \in DOMAIN w : \A v \in ways : v # w => \A m \in DOMAIN v : v[m] # w[k]}
\* a way stands for an edge: its own edge carries policy and priority, further edges pass the end of the receiver on
Stands(R, ways, w, e) ==
  /\ R[w[1]].src = e.src /\ R[w[1]].port = e.port /\ R[w[Len(w)]].dst = e.dst
  /\ \A k \in DOMAIN w : k > 1 => R[w[k]].port = "out"
  /\ \E k \in Own(ways, w) : /\ R[w[k]].br = e.br /\ R[w[k]].pr = e.pr
                             /\ \A m \in DOMAIN w : m # k => R[w[m]].br = "finish"
\* what the way says, as far as it can be told
Meaning(R, ways, w) ==
  LET K == {k \in Own(ways, w) : \A m \in DOMAIN w : m # k => R[w[m]].br = "finish"}
  IN {[src |-> R[w[1]].src, port |-> R[w[1]].port, dst |-> R[w[Len(w)]].dst, br |-> R[w[k]].br, pr |-> R[w[k]].pr] : k \in K}

\* Every edge of the user has its way, and there are no others.
Connected(U, R) ==
  LET New == AddedJ(U, R)
      core == {i \in DOMAIN R : R[i].dst \in CompsOf(U) \cup New}
      C == [i \in core |-> R[i]]
      ways == AllWays(C, New)
  IN /\ Cardinality(ways) = Len(U)
     /\ \A i \in DOMAIN U :
          Cardinality({w \in ways : Stands(C, ways, w, U[i])}) >= Cardinality({j \in DOMAIN U : U[j] = U[i]})
     /\ \A w \in ways : \E i \in DOMAIN U : Stands(C, ways, w, U[i])
     /\ \A i \in core : \E w \in ways : \E k \in DOMAIN w : w[k] = i

\* What a component cannot do by itself is left to junctions.
Simple(U, R) ==
  /\ \A i, j \in DOMAIN R : i # j /\ R[i].src = R[j].src /\ R[i].port = R[j].port => R[i].src[1] = "junction"
  /\ \A i, j \in DOMAIN R : i # j /\ R[i].dst = R[j].dst => R[i].dst[1] = "junction"

\* The exit of each program is waited for.
Watchers(U, R, drains) ==
  LET D == {c \in Added(U, R) : c[1] # "junction"}
      W == {i \in DOMAIN R : R[i].dst \in D}
  IN /\ \A c \in D : c[1] = "drain" /\ c[2] \in drains
     /\ \A i \in DOMAIN R : R[i].src \notin D
     /\ \A i \in W : R[i].port = "exit" /\ R[i].pr = 0
     /\ {R[i].src : i \in W} = Watched(U)
     /\ Cardinality(W) = Cardinality(Watched(U)) /\ Cardinality(D) = Cardinality(W)

Prepared(U, R, drains) == Connected(U, R) /\ Simple(U, R) /\ Watchers(U, R, drains)

\* Only junctions know priorities: an edge the user wrote without one must not get one.
Wishes(U, c) == {U[i].pr : i \in {i \in DOMAIN U : U[i].dst = c}}
Priorities(U, R) == \A i \in DOMAIN R : R[i].dst[1] # "junction" /\ R[i].pr # 0 =>
                       R[i].src \notin AddedJ(U, R) /\ Cardinality({j \in DOMAIN U : U[j].dst = R[i].dst}) = 1

\* Only split into pairs
SameEdges(U, R) == /\ Len(U) = Len(R)
                   /\ \A i \in DOMAIN U : Cardinality({j \in DOMAIN U : U[j] = U[i]}) = Cardinality({j \in DOMAIN R : R[j] = U[i]})
=============================================================================
