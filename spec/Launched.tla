------------------------------ MODULE Launched ------------------------------
(***************************************************************************)
(* How a program is started.                                                *)
(*                                                                          *)
(* r.set     [arg, env, path]: the settings; env and all environments are   *)
(*           sequences of <<name, value>>                                   *)
(* r.parent  the environment and the directory of pa2                       *)
(* r.starts  what each start of the program found: [arg, env, cwd, stdin]   *)
(* r.sent    what its incoming connection carries, "" when there is none    *)
(* r.status  "ok" when pa2 ended without error                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Names(e) == {e[k][1] : k \in DOMAIN e}
Value(e, n) == LET k == CHOOSE k \in DOMAIN e : e[k][1] = n IN e[k][2]
\* additions win
Merged(parent, add) == [n \in Names(parent) \cup Names(add) |-> IF n \in Names(add) THEN Value(add, n) ELSE Value(parent, n)]
AsFcn(e) == [n \in Names(e) |-> Value(e, n)]

Why(r) ==
  IF Len(r.starts) # 1 THEN "started " \o ToString(Len(r.starts)) \o " times"
  ELSE LET s == r.starts[1] IN
    IF s.arg # r.set.arg THEN "arguments"
    ELSE IF Cardinality(Names(s.env)) # Len(s.env) \/ AsFcn(s.env) # Merged(r.parent.env, r.set.env) THEN "environment"
    ELSE IF s.cwd # (IF r.set.path = "" THEN r.parent.cwd ELSE r.set.path) THEN "working directory"
    ELSE IF s.stdin # r.sent THEN "standard input"
    ELSE IF r.status # "ok" THEN "status"
    ELSE "fine"
=============================================================================
