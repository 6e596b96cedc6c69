----------------------------- MODULE JoinJudge -----------------------------
(* Reads recorded strings with the automaton of Join and compares its       *)
(* answer with what the real parser said.                                   *)
EXTENDS Join, Json, IOUtils
VARIABLES i, pos, s
T == ndJsonDeserialize(IOEnv.TRACEFILE)
Init == i \in DOMAIN T /\ pos = 0 /\ s = Begin
Next == /\ pos < Len(T[i].c) /\ pos' = pos + 1
        /\ s' = Read(s, T[i].c[pos + 1]) /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, pos, s>>
Same(got, w) == /\ Len(got) = Len(w)
                /\ \A k \in DOMAIN w : /\ got[k].type = w[k].type /\ got[k].name = w[k].name
                                       /\ k < Len(w) => got[k].port = w[k].port
                                       /\ k > 1 => (got[k].prio = w[k].prio /\ got[k].pol = w[k].pol)
Right == IF Accepts(s) THEN T[i].res = "ok" /\ Same(T[i].got, Meaning(s)) ELSE T[i].res = "bad"
Judge == pos = Len(T[i].c) => PrintT(<<"JUDGE", T[i].sid, Right, Accepts(s)>>)
=============================================================================
