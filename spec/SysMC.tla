------------------------------- MODULE SysMC -------------------------------
(***************************************************************************)
(* Small configurations, compiled into networks of Net and explored: every  *)
(* way in which they can run ends (no state is stuck), and ends with what   *)
(* Flow allows to be seen.  So what Flow demands of pa2 follows from what   *)
(* Net demands of the components.                                           *)
(***************************************************************************)
EXTENDS Net, SequencesExt
CONSTANTS Pick, Pols
F == INSTANCE Flow

----------------------------------------------------------------------------
(* Configurations                                                           *)
No == [out |-> <<>>, err |-> <<>>, exit |-> <<>>]
Comp(t, own, pass, bad, quits) == [t |-> t, own |-> own, pass |-> pass, bad |-> bad, full |-> FALSE, quits |-> quits, seen |-> t = "drain", got |-> <<>>,
                                   marked |-> FALSE, began |-> 0, ended |-> 0]
Own(o, e, x) == [out |-> o, err |-> e, exit |-> x]
Fau(o)   == Comp("faucet", Own(o, <<>>, <<>>), <<>>, FALSE, FALSE)
BadFau   == Comp("faucet", No, <<>>, TRUE, FALSE)
Dra      == Comp("drain", No, <<>>, FALSE, FALSE)
BadDra   == Comp("drain", No, <<>>, TRUE, FALSE)
FullDra  == [BadDra EXCEPT !.full = TRUE]
Jun      == Comp("junction", No, <<"out">>, FALSE, FALSE)
Buf      == Comp("buffer", No, <<"out">>, FALSE, FALSE)
Reg      == Comp("regulator", No, <<"out">>, FALSE, FALSE)
Cat(o, e, x) == Comp("launch", Own(o, e, x), <<"out">>, FALSE, FALSE)
Reader(o, x) == Comp("launch", Own(o, <<>>, x), <<"out">>, FALSE, TRUE)
BadLau   == Comp("launch", No, <<>>, TRUE, FALSE)
Ed(a, p, b, br) == [src |-> a, port |-> p, dst |-> b, br |-> br]
B1 == {"terminate", "finish", "consume"}
Two == {<<"f1", "f2">>}

\* families: every choice of policies
Cfg(cs, es) == [comps |-> cs, edges |-> es]
Family(name) ==
  CASE name = "line" -> {Cfg(<<Fau(<<"a", "b", "c">>), k, d>>, <<Ed(1, "out", 2, x), Ed(2, "out", 3, y)>>) : k \in {Buf, Reg, Jun}, d \in {Dra, BadDra, FullDra}, x, y \in Pols}
    [] name = "split" -> {Cfg(<<Fau(<<"a", "b">>), Dra, d>>, <<Ed(1, "out", 2, x), Ed(1, "out", 3, y)>>) : d \in {Dra, BadDra, FullDra}, x, y \in Pols}
    [] name = "merge" -> {Cfg(<<f, Fau(<<"b", "c">>), d>>, <<Ed(1, "out", 3, x), Ed(2, "out", 3, y)>>) : f \in {Fau(<<"a">>), BadFau}, d \in {Dra, BadDra, FullDra}, x, y \in Pols}
    [] name = "diamond" -> {Cfg(<<Fau(<<"a", "b">>), k, Dra, Dra>>, <<Ed(1, "out", 2, x), Ed(1, "out", 3, y), Ed(2, "out", 3, x), Ed(2, "out", 4, y)>>) : k \in {Buf, Reg}, x, y \in Pols}
    [] name = "program" -> {Cfg(<<Fau(<<"a">>), k, Dra, d>>, <<Ed(1, "out", 2, x), Ed(2, "out", 3, y), Ed(2, "exit", 4, x)>>)
                              : k \in {Cat(<<>>, <<>>, <<"10">>), Reader(<<"b">>, <<"10">>), BadLau}, d \in {Dra, BadDra, FullDra}, x, y \in Pols}
    [] name = "streams" -> {Cfg(<<Cat(<<"a", "b">>, <<"c", "d">>, <<"10">>), d, Dra>>, <<Ed(1, "out", 2, x), Ed(1, "err", 3, y), Ed(1, "exit", 3, x)>>) : d \in {Dra, BadDra, FullDra}, x, y \in Pols}
    [] name = "both" -> {Cfg(<<Fau(<<"a", "b">>), Fau(<<"c">>), Dra, d>>, <<Ed(1, "out", 3, x), Ed(1, "out", 4, y), Ed(2, "out", 3, y), Ed(2, "out", 4, x)>>) : d \in {Dra, BadDra, FullDra}, x, y \in Pols}
    [] name = "quitter" -> {Cfg(<<Fau(<<"a", "b", "c">>), k, Reader(<<>>, <<"10">>), Dra>>, <<Ed(1, "out", 2, x), Ed(2, "out", 3, y), Ed(3, "out", 4, x)>>) : k \in {Buf, Reg}, x, y \in Pols}
    [] name = "shared" -> {Cfg(<<Fau(<<"a", "b">>), Reader(<<>>, <<"10">>), Dra, Dra>>, <<Ed(1, "out", 2, x), Ed(1, "out", 3, y), Ed(2, "out", 4, "terminate")>>) : x, y \in Pols}

----------------------------------------------------------------------------
(* The network of a configuration                                           *)
Node(c, w) == [c |-> c, w |-> w]
Env == Node(0, "env")
Several(r, c, p) == Cardinality(F!OutOf(r, c, p)) > 1 /\ r.comps[c].t # "junction"
Many(r, c) == Cardinality(F!Into(r, c)) > 1 /\ r.comps[c].t # "junction"
Ports == {"out", "err", "exit"}
Nodes(r) ==
  UNION {LET t == r.comps[c].t IN
           (CASE t = "launch" -> {Node(c, "in"), Node(c, "prog"), Node(c, "out"), Node(c, "err"), Node(c, "exit")}
              [] t = "buffer" -> {Node(c, "main"), Node(c, "half")}
              [] OTHER -> {Node(c, "main")})
           \cup {Node(c, "jo-" \o p) : p \in {p \in Ports : Several(r, c, p)}}
           \cup (IF Many(r, c) THEN {Node(c, "ji")} ELSE {}) : c \in DOMAIN r.comps}
Sender(r, c, p) == CASE r.comps[c].t = "launch" -> Node(c, p) [] r.comps[c].t = "buffer" -> Node(c, "half") [] OTHER -> Node(c, "main")
Receiver(r, c) == IF r.comps[c].t = "launch" THEN Node(c, "in") ELSE Node(c, "main")
Pol(br) == CASE br = "terminate" -> "T" [] br = "finish" -> "F" [] OTHER -> "C"
L(s, d, cap, pol, has) == [s |-> s, d |-> d, cap |-> cap, pol |-> pol, has |-> has, n |-> 0]
Links(r) ==
  \* the connections, with the junctions which share them out
  {[L(IF Several(r, E1.src, E1.port) THEN Node(E1.src, "jo-" \o E1.port) ELSE Sender(r, E1.src, E1.port),
      IF Many(r, E1.dst) THEN Node(E1.dst, "ji") ELSE Receiver(r, E1.dst), 1, Pol(E1.br), <<>>) EXCEPT !.n = e]
     : <<e, E1>> \in {<<e, r.edges[e]>> : e \in DOMAIN r.edges}}
  \cup {L(Sender(r, x[1], x[2]), Node(x[1], "jo-" \o x[2]), 1, "F", <<>>) : x \in {x \in (DOMAIN r.comps) \X Ports : Several(r, x[1], x[2])}}
  \cup {L(Node(c, "ji"), Receiver(r, c), 1, "F", <<>>) : c \in {c \in DOMAIN r.comps : Many(r, c)}}
  \* sources, destinations and the insides
  \cup UNION {LET k == r.comps[c] IN
        CASE k.t = "faucet" -> {L(Env, Node(c, "main"), -1, "T", k.own.out)}
          [] k.t = "drain" -> {L(Node(c, "main"), Env, -1, "T", <<>>)}
          [] k.t = "buffer" -> {L(Node(c, "main"), Node(c, "half"), -1, "F", <<>>)}
          [] k.t = "launch" -> {L(Env, Node(c, "out"), -1, "T", k.own.out), L(Env, Node(c, "err"), -1, "T", k.own.err), L(Env, Node(c, "exit"), -1, "T", k.own.exit),
                                L(Node(c, "in"), Node(c, "prog"), 1, "F", <<>>)}
                               \cup {L(Node(c, "prog"), Node(c, p), 1, "F", <<>>) : p \in F!Passes(r, c)}
          [] OTHER -> {}
        : c \in DOMAIN r.comps}

Compile(r) ==
  LET ns == SetToSeq(Nodes(r))
      ls == SetToSeq(Links(r))
      Id(n) == IF n = Env THEN 0 ELSE CHOOSE i \in DOMAIN ns : ns[i] = n
  IN [cfg |-> r, nodes |-> ns, links |-> ls,
      net |-> [spy |-> FALSE,
               edges |-> [e \in DOMAIN ls |-> [src |-> Id(ls[e].s), dst |-> Id(ls[e].d), cap |-> ls[e].cap, pol |-> ls[e].pol, prio |-> 0]],
               comps |-> [i \in DOMAIN ns |->
                  [kind |-> IF ns[i].w = "exit" THEN "exit"
                            ELSE IF ns[i].w \in {"out", "err", "ji", "jo-out", "jo-err", "jo-exit"} \/ (ns[i].w = "main" /\ r.comps[ns[i].c].t = "junction") THEN "junction" ELSE "relay",
                   gate |-> FALSE,
                   exitof |-> IF ns[i].w \in {"in", "prog", "out", "err"} /\ r.comps[ns[i].c].t = "launch" THEN Id(Node(ns[i].c, "exit")) ELSE 0,
                   with |-> IF r.comps[ns[i].c].t = "buffer" /\ ns[i].w = "main" THEN Id(Node(ns[i].c, "half")) ELSE 0]]]]
All == {Compile(r) : r \in Family(Pick)}

----------------------------------------------------------------------------
VARIABLE sys
BadNode(s, i) == s.cfg.comps[s.nodes[i].c].bad /\ ~s.cfg.comps[s.nodes[i].c].full /\ s.nodes[i].w \notin {"ji", "jo-out", "jo-err", "jo-exit"}
Init == \E s \in All :
  /\ sys = s
  /\ net = s.net
  /\ LET Gives(e) == s.links[e].d = Env /\ s.cfg.comps[s.links[e].s.c].full
         Gone(e) == Gives(e) \/ \E i \in DOMAIN s.nodes : BadNode(s, i) /\ i \in {s.net.edges[e].src, s.net.edges[e].dst}
         GoneRx(e) == Gives(e) \/ \E i \in DOMAIN s.nodes : BadNode(s, i) /\ i = s.net.edges[e].dst
     IN /\ q = [e \in DOMAIN s.links |-> IF GoneRx(e) THEN <<>> ELSE s.links[e].has]
        /\ open = [e \in DOMAIN s.links |-> s.links[e].s # Env /\ ~Gone(e)]
        /\ rx = [e \in DOMAIN s.links |-> ~GoneRx(e)]
  /\ st = [i \in DOMAIN s.nodes |-> IF BadNode(s, i) THEN "err" ELSE "run"]
  /\ hand = [i \in DOMAIN s.nodes |-> <<>>]
  /\ pend = [i \in DOMAIN s.nodes |-> {}]
  /\ dead = [i \in DOMAIN s.nodes |-> {}]
  /\ from = [i \in DOMAIN s.nodes |-> 0]
  /\ live = [i \in DOMAIN s.nodes |-> IF BadNode(s, i) THEN {} ELSE {e \in DOMAIN s.links : s.net.edges[e].dst = i}]
  /\ pleft = [i \in DOMAIN s.nodes |-> {}]
  /\ want = [i \in DOMAIN s.nodes |-> "go"]
  /\ budget = [i \in DOMAIN s.nodes |-> 0]
  /\ wlog = <<>>

\* a program stops reading
Quit(i) ==
  /\ sys.nodes[i].w = "prog" /\ sys.cfg.comps[sys.nodes[i].c].quits /\ Idle(i) /\ live[i] # {}
  /\ live' = [live EXCEPT ![i] = {}]
  /\ pleft' = [pleft EXCEPT ![i] = {}]
  /\ rx' = [e \in Edges |-> rx[e] /\ e \notin live[i]]
  /\ open' = [e \in Edges |-> open[e] /\ e \notin live[i]]
  /\ q' = [e \in Edges |-> IF e \in live[i] THEN <<>> ELSE q[e]]
  /\ UNCHANGED <<net, st, hand, pend, dead, from, want, budget, wlog>>

Over == \A i \in DOMAIN sys.nodes : st[i] # "run"
Next == /\ UNCHANGED sys
        /\ \/ \E i \in DOMAIN sys.nodes : CompStep(i) \/ Quit(i)
           \/ Over /\ UNCHANGED vars
Spec == Init /\ [][Next]_<<vars, sys>>

----------------------------------------------------------------------------
\* What is seen.
Hidden == {"ji", "jo-out", "jo-err", "jo-exit"}
Failed == {i \in DOMAIN sys.nodes : st[i] = "err"}
Seen ==
  LET r == sys.cfg
      Got(c) == LET e == CHOOSE e \in DOMAIN sys.links : sys.links[e].s = Node(c, "main") /\ sys.links[e].d = Env IN q[e]
  IN [comps |-> [c \in DOMAIN r.comps |-> IF r.comps[c].t = "drain" /\ ~r.comps[c].bad THEN [r.comps[c] EXCEPT !.got = Got(c)]
                                          ELSE [r.comps[c] EXCEPT !.seen = FALSE]],
      edges |-> r.edges, sure |-> FALSE,
      status |-> IF Failed = {} THEN "ok" ELSE "error",
      lines |-> SetToSeq({[src |-> IF sys.nodes[i].w \in Hidden THEN 0 ELSE sys.nodes[i].c, dst |-> -1] : i \in Failed}),
      extra |-> FALSE]
Ends == Over => F!Right(Seen)
=============================================================================
