------------------------------ MODULE Refused ------------------------------
(***************************************************************************)
(* A configuration which cannot be wired up is refused before anything      *)
(* happens.                                                                 *)
(*                                                                          *)
(* r.rc        the exit status                                              *)
(* r.stdout    bytes on standard output                                     *)
(* r.culprit   the component at fault, "" when the text cannot be read      *)
(* r.names     the component names found on standard error                  *)
(* r.started   programs which were started                                  *)
(* r.touched   drains whose file was changed                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Rng(s) == {s[k] : k \in DOMAIN s}
Why(r) ==
  IF r.rc # 1 THEN "exit status"
  ELSE IF r.stdout # 0 THEN "standard output"
  ELSE IF r.culprit # "" /\ r.culprit \notin Rng(r.names) THEN "names"
  ELSE IF r.started # <<>> \/ r.touched # <<>> THEN "something was done"
  ELSE "fine"
=============================================================================
