------------------------------ MODULE GraphGen ------------------------------
(* Connections over a small menu, written component by component, drawn     *)
(* incrementally; the drawing must always be right for what is written.     *)
EXTENDS Graph
CONSTANTS TypeMenu, NameMenu, PortMenu, MaxConns, MaxComps
VARIABLES conns, d
Key(c) == c.type \o "." \o c.name
Init == conns = <<>> /\ d = [nodes |-> <<>>, edges |-> <<>>, legend |-> <<>>]
Comp == [type : TypeMenu, name : NameMenu, port : PortMenu]
Node(c, id) == [key |-> Key(c), shape |-> ShapeOf[c.type], label |-> c.name, fill |-> c.type, group |-> ""]
Open == \E c \in Comp : /\ Len(conns) < MaxConns
                        /\ IF conns = <<>> THEN TRUE ELSE Len(conns[Len(conns)].comps) >= 2
                        /\ conns' = Append(conns, [id |-> ToString(Len(conns)), comps |-> <<c>>])
                        /\ d' = [d EXCEPT !.nodes = Append(@, Node(c, ToString(Len(conns))))]
Extend == \E c \in Comp : LET n == Len(conns) IN
                        /\ n > 0 /\ Len(conns[n].comps) < MaxComps
                        /\ LET p == conns[n].comps[Len(conns[n].comps)] IN
                           /\ conns' = [conns EXCEPT ![n].comps = Append(@, c)]
                           /\ d' = [d EXCEPT !.nodes = Append(@, Node(c, conns[n].id)),
                                             !.edges = Append(@, [src |-> Key(p), dst |-> Key(c), label |-> LabelOf[p.port]])]
Next == Open \/ Extend
Spec == Init /\ [][Next]_<<conns, d>>
Right == DiagramRight(conns, d)
\* leaving out an edge or drawing it twice is noticed
Sharp == d.edges # <<>> => /\ ~DiagramRight(conns, [d EXCEPT !.edges = Tail(@)])
                           /\ ~DiagramRight(conns, [d EXCEPT !.edges = Append(@, @[1])])
Emit == (conns # <<>> /\ Len(conns[Len(conns)].comps) >= 2) => PrintT(<<"CONNS", ToString(conns)>>)
=============================================================================
