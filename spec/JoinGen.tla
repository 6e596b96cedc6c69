------------------------------ MODULE JoinGen ------------------------------
(* Writes join strings piece by piece, next to what they should mean, and   *)
(* checks that the automaton of Join agrees.  Each string which is reached  *)
(* is printed, to be given to the real parser.                              *)
EXTENDS Join
CONSTANTS MaxComps, TypeMenu, NameMenu, PrioMenu, PortMenu, PipeMenu
VARIABLES chars, want, last, auto

Chars(t) == [i \in 1..Len(t) |-> SubSeq(t, i, i)]
RECURSIVE Run(_, _)
Run(s, t) == IF t = "" THEN s ELSE Run(Read(s, SubSeq(t, 1, 1)), SubSeq(t, 2, Len(t)))

PipePol(p) == IF \E i \in 1..Len(p) : SubSeq(p, i, i) = "F" THEN "finish"
              ELSE IF \E i \in 1..Len(p) : SubSeq(p, i, i) = "C" THEN "consume" ELSE "terminate"
PrioNum(p) == CASE p = "" -> "0" [] p = "[5]" -> "5" [] p = "[-2]" -> "-2" [] p = "[007]" -> "7" [] p = "[0]" -> "0"
                [] p = "[-0]" -> "0" [] p = "[120]" -> "120"
PortName(p) == CASE p = "" -> "out" [] p = "[O]" -> "out" [] p = "[E]" -> "err" [] p = "[X]" -> "exit"

Init == chars = "" /\ want = <<>> /\ last = "" /\ auto = Begin

\* pipe and component, with or without a port
Extend ==
  /\ Len(want) < MaxComps
  /\ \E p \in (IF want = <<>> THEN {""} ELSE PipeMenu), r \in (IF want = <<>> THEN {""} ELSE PrioMenu),
        t \in TypeMenu, n \in NameMenu, o \in PortMenu :
       LET piece == p \o r \o t \o ":" \o n \o o IN
       /\ chars' = chars \o piece
       /\ want' = Append(want, [type |-> TypeOf(t), name |-> n, port |-> PortName(o), ported |-> o # "", prio |-> PrioNum(r),
                                pol |-> IF want = <<>> THEN "terminate" ELSE PipePol(p)])
       /\ last' = o
       /\ auto' = Run(auto, piece)

Spec == Init /\ [][Extend]_<<chars, want, last, auto>>

Agree ==
  /\ Accepts(auto) <=> (Len(want) # 1 /\ last = "")
  /\ Accepts(auto) => Meaning(auto) = want
Emit == PrintT(<<"STR", chars>>)
=============================================================================
