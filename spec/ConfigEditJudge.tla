-------------------------- MODULE ConfigEditJudge --------------------------
(* Carried out histories: r.states[1] is the configuration given to the     *)
(* first command, r.states[k+1] what command k printed (or, when it         *)
(* refused, what it was given).                                             *)
EXTENDS ConfigEdit, Json, IOUtils
VARIABLES i, k, ok
T == ndJsonDeserialize(IOEnv.TRACEFILE)
Map(q, F(_)) == [n \in {q[j][1] : j \in DOMAIN q} |-> F((CHOOSE e \in {q[j] : j \in DOMAIN q} : e[1] = n)[2])]
Same(x) == x
Lau(x) == [cmd |-> x.cmd, path |-> x.path, arg |-> x.arg, env |-> Map(x.env, Same)]
Reg(x) == [water |-> x.water, mon |-> x.mon]
Cfg(s) == [faucet |-> Map(s.faucet, Same), drain |-> Map(s.drain, Same), regulator |-> Map(s.regulator, Reg),
           launch |-> Map(s.launch, Lau), connection |-> Map(s.connection, Same)]
Init == i \in DOMAIN T /\ k = 0 /\ ok = TRUE
Next == /\ ok /\ k < Len(T[i].cmds) /\ k' = k + 1 /\ UNCHANGED i
        /\ LET c == T[i].cmds[k + 1] IN
           ok' = /\ Cfg(T[i].states[k + 2]) = Apply(Cfg(T[i].states[k + 1]), c)
                 /\ IF Refused(c) THEN c.rc \notin {0, -99} /\ ~c.printed ELSE c.rc = 0 /\ c.printed
Spec == Init /\ [][Next]_<<i, k, ok>>
Judge == (~ok \/ k = Len(T[i].cmds)) => PrintT(<<"JUDGE", T[i].sid, ok, k>>)
=============================================================================
