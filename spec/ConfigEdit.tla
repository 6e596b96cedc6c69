----------------------------- MODULE ConfigEdit -----------------------------
(***************************************************************************)
(* The editing commands as a state machine over configurations.             *)
(*                                                                          *)
(* A configuration is a record of maps (functions on names):                *)
(*   faucet     name -> source          drain   name -> destination         *)
(*   regulator  name -> [water, mon]    water is <<>> or <<low, high>>      *)
(*   launch     name -> [cmd, path, arg, env]  cmd, path <<>> or <<value>>  *)
(*   connection id   -> what it joins                                       *)
(* A command is [op, id, v, bad]: v a sequence of values; env takes           *)
(* <<key, value>>; bad if what is given makes no sense.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == <<>>
Get(f, n, d) == IF n \in DOMAIN f THEN f[n] ELSE d
Put(f, n, v) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN v ELSE f[m]]

NewLaunch == [cmd |-> <<>>, path |-> <<>>, arg |-> <<>>, env |-> Empty]
NewRegulator == [water |-> <<>>, mon |-> <<>>]

RECURSIVE EnvOf(_, _)
EnvOf(kvs, f) == IF kvs = <<>> THEN f ELSE EnvOf(Tail(kvs), Put(f, kvs[1][1], kvs[1][2]))

\* Commands which say nothing sensible are refused.
Refused(c) == c.bad
Section(c) == CASE c.op = "source" -> "faucet" [] c.op = "destination" -> "drain" [] c.op = "watermark" -> "regulator"
                [] c.op = "join" -> "connection" [] OTHER -> "launch"

Apply(cfg, c) ==
  LET l == Get(cfg.launch, c.id, NewLaunch)
      r == Get(cfg.regulator, c.id, NewRegulator) IN
  IF Refused(c) THEN cfg ELSE
  CASE c.op = "print"       -> cfg          \* lint of a clean configuration prints it
    [] c.op = "source"      -> [cfg EXCEPT !.faucet = Put(@, c.id, c.v[1])]
    [] c.op = "destination" -> [cfg EXCEPT !.drain = Put(@, c.id, c.v[1])]
    [] c.op = "watermark"   -> [cfg EXCEPT !.regulator = Put(@, c.id, [r EXCEPT !.water =
                                  IF c.v[1] <= c.v[2] THEN <<c.v[1], c.v[2]>> ELSE <<c.v[2], c.v[1]>>])]
    [] c.op = "command"     -> [cfg EXCEPT !.launch = Put(@, c.id, [l EXCEPT !.cmd = <<c.v[1]>>])]
    [] c.op = "path"        -> [cfg EXCEPT !.launch = Put(@, c.id, [l EXCEPT !.path = <<c.v[1]>>])]
    [] c.op = "args"        -> [cfg EXCEPT !.launch = Put(@, c.id, [l EXCEPT !.arg = c.v])]
    [] c.op = "env"         -> [cfg EXCEPT !.launch = Put(@, c.id, [l EXCEPT !.env = EnvOf(c.v, Empty)])]
    [] c.op = "join"        -> [cfg EXCEPT !.connection = Put(@, c.id, c.v[1])]
=============================================================================
