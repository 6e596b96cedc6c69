-------------------------------- MODULE Lint --------------------------------
(***************************************************************************)
(* What is wrong with a configuration, and what may happen to it.           *)
(*                                                                          *)
(* A configuration c is a record of                                         *)
(*   settings  set of <<type, name>>     components with settings            *)
(*   used      set of <<type, name>>     components in connections           *)
(*   monitors  set of <<regulator, buffer>>                                  *)
(*   badjoins  set of connection ids whose join string is none               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Required == {"faucet", "drain", "launch", "regulator"}

Unused(c)     == {<<"0001", s[1], s[2]>> : s \in {x \in c.settings : x \notin c.used}}
Missing(c)    == {<<"0002", s[1], s[2]>> : s \in {x \in c.used : x[1] \in Required /\ x \notin c.settings}}
BadJoins(c)   == {<<"0003", "join", i>> : i \in c.badjoins}
Unmonitored(c) == {<<"0004", "buffer", m[2]>> : m \in {x \in c.monitors : <<"buffer", x[2]>> \notin c.used}}

\* join strings which are none hide which components are used
Findings(c) == IF c.badjoins # {} THEN BadJoins(c) ELSE Unused(c) \cup Missing(c) \cup Unmonitored(c)
Fatal(c) == {f \in Findings(c) : f[1] # "0001"}

\* A run of "config lint" printed findings rep and ended with code rc.
LintRight(c, rep, rc) == rep = Findings(c) /\ (rc = 0 <=> rep = {})

\* A run of "process": rep the findings it printed, named the culprits (type, name) in its
\* error report, started the programs, touched the drains.
ProcessRight(c, r) ==
  IF Fatal(c) # {}
  THEN r.rc \notin {0, -99} /\ r.started = {} /\ r.touched = {} /\ Fatal(c) \subseteq r.rep
  ELSE r.rep = {} /\ {s[2] : s \in {x \in c.used : x[1] = "launch"}} = r.started
=============================================================================
