-------------------------------- MODULE Loop --------------------------------
(***************************************************************************)
(* A program in a loop: it sends a message "n:x" back as "n-1:x" and, when  *)
(* n is 0, x out of the loop.  Every cycle goes through a buffer.           *)
(*                                                                          *)
(* r.items   records [x, n]: x must come out n times (a program may send     *)
(*           every message back several times)                              *)
(* r.got     likewise, what came out                                        *)
(* r.status  "ok", "error" or "hang"                                        *)
(*                                                                          *)
(* Or a program writes all of r.wrote messages before it reads any: r.back   *)
(* of them came back in order.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Rng(s) == {s[k] : k \in DOMAIN s}
Why(r) ==
  IF r.status = "hang" THEN "the loop is stuck"
  ELSE IF r.status # "ok" THEN "failed"
  ELSE IF "wrote" \in DOMAIN r THEN (IF r.back = r.wrote THEN "fine" ELSE "what came back")
  ELSE IF Len(r.got) # Len(r.items) \/ Rng(r.got) # Rng(r.items) THEN "what came out"
  ELSE "fine"
=============================================================================
