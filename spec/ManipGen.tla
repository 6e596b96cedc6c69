------------------------------ MODULE ManipGen ------------------------------
(* The user writes edges one after the other; then outputs with several     *)
(* edges are split, inputs with several edges are merged and exits watched, *)
(* each in any order.  The outcome is always prepared.                      *)
EXTENDS Manip
CONSTANTS SrcMenu, DstMenu, Brs, Prs, MaxEdges
SrcOf == [f |-> <<<<"faucet", "a">>, "out">>, l |-> <<<<"launch", "l">>, "out">>, x |-> <<<<"launch", "l">>, "exit">>,
          e |-> <<<<"launch", "l">>, "err">>, b |-> <<<<"buffer", "b">>, "out">>, j |-> <<<<"junction", "junction_1">>, "out">>]
DstOf == [l |-> <<"launch", "l">>, m |-> <<"launch", "m">>, d |-> <<"drain", "d">>, y |-> <<"drain", "dyn_drain_1">>, b |-> <<"buffer", "b">>,
          j |-> <<"junction", "junction_1">>]
Srcs == {SrcOf[k] : k \in SrcMenu}
Dsts == {DstOf[k] : k \in DstMenu}
VARIABLES U, R, phase, drains

Fresh(base, taken) == base \o "_" \o ToString(CHOOSE k \in 1..99 : base \o "_" \o ToString(k) \notin taken /\ \A m \in 1..(k-1) : base \o "_" \o ToString(m) \in taken)
Js(E) == {c[2] : c \in {c \in CompsOf(E) : c[1] = "junction"}}
Ds(E) == {c[2] : c \in {c \in CompsOf(E) : c[1] = "drain"}}

Init == U = <<>> /\ R = <<>> /\ phase = "write" /\ drains = {}
Write == /\ phase = "write" /\ Len(U) < MaxEdges
         /\ \E s \in Srcs, d \in Dsts, b \in Brs, p \in Prs :
              /\ (p # 0 => d[1] = "junction")
              /\ U' = Append(U, [src |-> s[1], port |-> s[2], dst |-> d, br |-> b, pr |-> p])
         /\ UNCHANGED <<R, phase, drains>>
Done == phase = "write" /\ U # <<>> /\ phase' = "split" /\ R' = U /\ UNCHANGED <<U, drains>>
First(S) == CHOOSE i \in S : \A j \in S : i <= j

\* an output of a component of the user with several edges, or an input with several, as counted in what the user wrote
Starts == {<<U[i].src, U[i].port>> : i \in {i \in DOMAIN U : \E j \in DOMAIN U : j # i /\ U[j].src = U[i].src /\ U[j].port = U[i].port}}
Ends == {U[i].dst : i \in {i \in DOMAIN U : \E j \in DOMAIN U : j # i /\ U[j].dst = U[i].dst}}
Out(E, o) == {i \in DOMAIN E : E[i].src = o[1] /\ E[i].port = o[2]}
Inn(E, c) == {i \in DOMAIN E : E[i].dst = c}

Split(E, o) ==
  LET j == <<"junction", Fresh("junction", Js(E))>>
      S == Out(E, o)
  IN Append([i \in DOMAIN E |-> IF i \in S THEN [E[i] EXCEPT !.src = j, !.port = "out"] ELSE E[i]],
            [src |-> o[1], port |-> o[2], dst |-> j, br |-> "finish", pr |-> E[First(S)].pr])
Merge(E, c) ==
  LET j == <<"junction", Fresh("junction", Js(E))>>
      S == Inn(E, c)
  IN Append([i \in DOMAIN E |-> IF i \in S THEN [E[i] EXCEPT !.dst = j] ELSE E[i]],
            [src |-> j, port |-> "out", dst |-> c, br |-> "finish", pr |-> E[First(S)].pr])
Watch(E, l) ==
  LET d == <<"drain", Fresh("dyn_drain", drains \cup Ds(E))>>
  IN Append(E, [src |-> l, port |-> "exit", dst |-> d, br |-> "terminate", pr |-> 0])

DoSplit == phase = "split" /\ \E o \in Starts : Cardinality(Out(R, o)) > 1 /\ R' = Split(R, o) /\ UNCHANGED <<U, phase, drains>>
ToMerge == phase = "split" /\ (\A o \in Starts : Cardinality(Out(R, o)) <= 1) /\ phase' = "merge" /\ UNCHANGED <<U, R, drains>>
DoMerge == phase = "merge" /\ \E c \in Ends : Cardinality(Inn(R, c)) > 1 /\ R' = Merge(R, c) /\ UNCHANGED <<U, phase, drains>>
ToWatch == phase = "merge" /\ (\A c \in Ends : Cardinality(Inn(R, c)) <= 1) /\ phase' = "watch" /\ UNCHANGED <<U, R, drains>>
DoWatch == phase = "watch" /\ \E l \in Watched(U) : (\A i \in DOMAIN R : ~(R[i].src = l /\ R[i].port = "exit"))
             /\ R' = Watch(R, l) /\ drains' = drains \cup {R'[Len(R')].dst[2]} /\ UNCHANGED <<U, phase>>
ToDone == phase = "watch" /\ (\A l \in Watched(U) : \E i \in DOMAIN R : R[i].src = l /\ R[i].port = "exit") /\ phase' = "done" /\ UNCHANGED <<U, R, drains>>
Next == Write \/ Done \/ DoSplit \/ ToMerge \/ DoMerge \/ ToWatch \/ DoWatch \/ ToDone
Spec == Init /\ [][Next]_<<U, R, phase, drains>>

Right == phase = "done" => Prepared(U, R, drains)
\* every single edge counts: without it, or with it twice, or with another policy or destination, it is noticed
Sharp == phase = "done" =>
  \A i \in DOMAIN R :
    /\ ~Prepared(U, [k \in 1..(Len(R) - 1) |-> IF k < i THEN R[k] ELSE R[k + 1]], drains)
    /\ ~Prepared(U, Append(R, R[i]), drains)
    /\ R[i].dst \in CompsOf(U) \cup AddedJ(U, R) => \A b \in {"terminate", "consume", "finish"} \ {R[i].br} : ~Prepared(U, [R EXCEPT ![i].br = b], drains)
\* merging first would be wrong as soon as something is both split and merged
Emit == (phase = "split" /\ R = U) => PrintT(<<"EDGES", ToString(U)>>)
=============================================================================
