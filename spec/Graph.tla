------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* What the picture of a configuration shows.                               *)
(*                                                                          *)
(* conns: sequence of [id, comps], comps a sequence of [type, name, port].  *)
(* A drawing d is a record                                                  *)
(*   nodes   sequence of [key, shape, label, fill, group]  (a node may be    *)
(*           mentioned more than once)                                      *)
(*   edges   sequence of [src, dst, label] over keys                        *)
(*   legend  sequence of [key, label, text, shape, fill, box]: a symbol, the  *)
(*           word beside it, what is written inside, whether these two are  *)
(*           held together by a box                                         *)
(*   border  whether there is a border around the legend                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ShapeOf == [faucet |-> "trapezium", drain |-> "invtrapezium", junction |-> "oval",
            buffer |-> "invhouse", launch |-> "box", regulator |-> "house"]
LabelOf == [out |-> "", err |-> "err", exit |-> "exit"]

Comps(conns) == UNION {{<<c.comps[k].type, c.comps[k].name>> : k \in DOMAIN c.comps} : c \in {conns[i] : i \in DOMAIN conns}}
In(conns, comp) == {conns[i].id : i \in {j \in DOMAIN conns : \E k \in DOMAIN conns[j].comps :
                        <<conns[j].comps[k].type, conns[j].comps[k].name>> = comp}}
\* the edges: for every pair of neighbours one
Links(conns) == {<<i, k>> : i \in DOMAIN conns, k \in 1..20} \cap {<<i, k>> \in (DOMAIN conns) \X (1..20) : k < Len(conns[i].comps)}
LinkOf(conns, l) == LET cs == conns[l[1]].comps IN
  <<ShapeOf[cs[l[2]].type], cs[l[2]].name, LabelOf[cs[l[2]].port], ShapeOf[cs[l[2] + 1].type], cs[l[2] + 1].name>>

DiagramRight(conns, d) ==
  LET N == {d.nodes[i] : i \in DOMAIN d.nodes}
      Keys == {n.key : n \in N}
      Of(k) == CHOOSE n \in N : n.key = k
      Drawn(e) == <<Of(e.src).shape, Of(e.src).label, e.label, Of(e.dst).shape, Of(e.dst).label>>
      E == DOMAIN d.edges
      W == Links(conns)
  IN /\ \A a, b \in N : a.key = b.key => a = b
     /\ Cardinality(Keys) = Cardinality(Comps(conns))
     /\ {<<n.shape, n.label>> : n \in N} = {<<ShapeOf[c[1]], c[2]>> : c \in Comps(conns)}
     /\ \A i \in E : d.edges[i].src \in Keys /\ d.edges[i].dst \in Keys
     /\ Cardinality(E) = Cardinality(W)
     /\ \A i \in E : Cardinality({j \in E : Drawn(d.edges[j]) = Drawn(d.edges[i])})
                     = Cardinality({l \in W : LinkOf(conns, l) = Drawn(d.edges[i])})
     \* a node stands in a group only with a connection it is part of
     /\ \A n \in N : n.group # "" => \E c \in Comps(conns) : ShapeOf[c[1]] = n.shape /\ c[2] = n.label /\ n.group \in In(conns, c)

\* every kind once, as the diagram draws it
LegendRight(border, d) ==
  /\ {<<l.label, l.shape>> : l \in {d.legend[i] : i \in DOMAIN d.legend}} = {<<t, ShapeOf[t]>> : t \in DOMAIN ShapeOf}
  /\ Len(d.legend) = Cardinality(DOMAIN ShapeOf)
  /\ d.border = border
  \* without a box its word would not be shown
  /\ \A j \in DOMAIN d.legend : d.legend[j].text = "" /\ d.legend[j].box
  /\ {d.legend[j].key : j \in DOMAIN d.legend} \cap {d.nodes[i].key : i \in DOMAIN d.nodes} = {}
  /\ \A i \in DOMAIN d.nodes, j \in DOMAIN d.legend : d.nodes[i].shape = d.legend[j].shape => d.nodes[i].fill = d.legend[j].fill
ColoursRight(d) == \A i, j \in DOMAIN d.nodes : d.nodes[i].shape = d.nodes[j].shape => d.nodes[i].fill = d.nodes[j].fill

GraphRight(conns, mode, border, d) ==
  /\ IF mode = "legend" THEN d.nodes = <<>> /\ d.edges = <<>> ELSE DiagramRight(conns, d) /\ ColoursRight(d)
  /\ IF mode = "diagram" THEN d.legend = <<>> ELSE LegendRight(border, d)
=============================================================================
