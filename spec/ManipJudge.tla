----------------------------- MODULE ManipJudge -----------------------------
(* What the code made of configurations: U as written, R as it came back.   *)
(* before, after: settings [faucet, drain, launch, regulator], each a        *)
(* sequence of <<name, value as text>> in order of names.                   *)
EXTENDS Manip, Json, IOUtils
VARIABLE i
T == ndJsonDeserialize(IOEnv.TRACEFILE)
Init == i \in DOMAIN T
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Names(q) == {q[k][1] : k \in DOMAIN q}
Pairs(q) == {q[k] : k \in DOMAIN q}
NewDrains(r) == Names(r.after.drain) \ Names(r.before.drain)
SettingsKept(r) ==
  /\ r.before.faucet = r.after.faucet /\ r.before.launch = r.after.launch /\ r.before.regulator = r.after.regulator
  /\ Pairs(r.before.drain) \subseteq Pairs(r.after.drain)
  /\ \A p \in Pairs(r.after.drain) \ Pairs(r.before.drain) : p[2] = "/dev/null" /\ p[1] \in NewDrains(r)
Verdict(r) ==
  IF ~r.ok THEN "failed"
  ELSE IF ~SettingsKept(r) THEN "settings"
  ELSE IF r.op = "light" THEN (IF SameEdges(r.U, r.R) /\ NewDrains(r) = {} THEN "fine" ELSE "edges")
  ELSE IF ~Connected(r.U, r.R) THEN "edges"
  ELSE IF ~Simple(r.U, r.R) THEN "several edges where one is possible"
  ELSE IF ~Watchers(r.U, r.R, NewDrains(r)) THEN "exits"
  ELSE IF Cardinality(NewDrains(r)) # Cardinality(Watched(r.U)) THEN "drains"
  ELSE IF ~Priorities(r.U, r.R) THEN "priority"
  ELSE "fine"
Judge == PrintT(<<"JUDGE", T[i].sid, Verdict(T[i])>>)
=============================================================================
