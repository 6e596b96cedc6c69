------------------------------ MODULE Stalled ------------------------------
(***************************************************************************)
(* A line of components from standard input to an end which is not read,    *)
(* and then is.                                                             *)
(*                                                                          *)
(* r.chain    the types of the components                                   *)
(* r.given    the lines offered while the end was stalled                   *)
(* r.taken    those of them which were taken                                *)
(* r.perpipe  how many lines fit into a pipe                                *)
(* r.pipes    the number of pipes on the way                                *)
(* r.watched  a regulator monitors the buffers                              *)
(* r.status   of the run, after the end was read                            *)
(* r.whole    what arrived in the end is what was given                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* "a small fixed bound": what a component may hold
PerComponent == 66
Slack(r) == PerComponent * (Len(r.chain) + 2) + (r.perpipe + 2) * r.pipes
Unbounded(r) == \E k \in DOMAIN r.chain : r.chain[k] = "buffer"

Why(r) ==
  IF ~Unbounded(r) /\ r.taken > Slack(r) THEN "took more than it can hold"
  ELSE IF r.watched /\ r.taken = r.given THEN "the regulator never stopped"
  ELSE IF Unbounded(r) /\ ~r.watched /\ r.taken < r.given THEN "a buffer did not take all"
  ELSE IF r.status # "ok" THEN "status " \o r.status
  ELSE IF ~r.whole THEN "what arrived"
  ELSE "fine"
=============================================================================
