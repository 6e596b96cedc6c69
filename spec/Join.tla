-------------------------------- MODULE Join --------------------------------
(***************************************************************************)
(* Join strings: an automaton which reads one character at a time and says  *)
(* whether a string is one, and which components it joins.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Digits  == {"0","1","2","3","4","5","6","7","8","9"}
Lower   == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper   == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
NameChars == Digits \cup Lower \cup Upper \cup {"_"}

Types == [f |-> "faucet", d |-> "drain", r |-> "regulator", j |-> "junction", b |-> "buffer", l |-> "launch"]
TypeOf(s) == IF s \in DOMAIN Types THEN Types[s]
             ELSE IF \E k \in DOMAIN Types : Types[k] = s THEN s ELSE "?"
Ports == [O |-> "out", E |-> "err", X |-> "exit"]
Policies == [T |-> "terminate", F |-> "finish", C |-> "consume"]

\* "007" and "-0": the number without leading zeros
RECURSIVE Strip(_)
Strip(ds) == IF Len(ds) > 1 /\ ds[1] = "0" THEN Strip(Tail(ds)) ELSE ds
RECURSIVE Flat(_)
Flat(cs) == IF cs = <<>> THEN "" ELSE cs[1] \o Flat(Tail(cs))
Number(neg, ds) == LET s == Flat(Strip(ds)) IN IF s \in {"", "0"} THEN "0" ELSE IF neg THEN "-" \o s ELSE s

\* mode  what is expected next, see Read
\* comps the components read completely
\* prio, neg, typ, nam, port   the component being read
\* pol   the policy of the pipe before it
Fresh(comps, pol) == [mode |-> "comp", comps |-> comps, prio |-> <<>>, neg |-> FALSE, typ |-> "", nam |-> "", port |-> "", pol |-> pol]
Begin == [Fresh(<<>>, "terminate") EXCEPT !.mode = "begin"]
Bad == [Fresh(<<>>, "") EXCEPT !.mode = "bad"]

Made(s) == [type |-> s.typ, name |-> s.nam, port |-> IF s.port = "" THEN "out" ELSE s.port, ported |-> s.port # "",
            prio |-> Number(s.neg, s.prio), pol |-> s.pol]

Read(s, c) ==
  LET first == s.comps = <<>> IN
  CASE s.mode \in {"begin", "comp", "gap"} ->
         IF s.mode = "gap" /\ c = " " THEN s
         ELSE IF c = "[" /\ ~first THEN [s EXCEPT !.mode = "prio"]
         ELSE IF c \in Lower THEN [s EXCEPT !.mode = "type", !.typ = c]
         ELSE Bad
    [] s.mode = "prio" ->
         IF c = "-" /\ ~s.neg /\ s.prio = <<>> THEN [s EXCEPT !.neg = TRUE]
         ELSE IF c \in Digits THEN [s EXCEPT !.prio = Append(@, c)]
         ELSE IF c = "]" THEN [s EXCEPT !.mode = "totype"]
         ELSE Bad
    [] s.mode \in {"totype", "type"} ->
         IF c \in Lower THEN [s EXCEPT !.mode = "type", !.typ = @ \o c]
         ELSE IF c = ":" /\ TypeOf(s.typ) # "?" THEN [s EXCEPT !.mode = "name", !.typ = TypeOf(@)]
         ELSE Bad
    [] s.mode = "name" ->
         IF c \in NameChars THEN [s EXCEPT !.nam = @ \o c]
         ELSE IF s.nam = "" THEN Bad
         ELSE IF c = "[" THEN [s EXCEPT !.mode = "port"]
         ELSE IF c = " " THEN [s EXCEPT !.mode = "topipe"]
         ELSE IF c = "|" THEN [Fresh(Append(s.comps, Made(s)), "terminate") EXCEPT !.mode = "pipe"]
         ELSE Bad
    [] s.mode = "port" ->
         IF c \in DOMAIN Ports THEN [s EXCEPT !.mode = "portend", !.port = Ports[c]] ELSE Bad
    [] s.mode = "portend" -> IF c = "]" THEN [s EXCEPT !.mode = "ported"] ELSE Bad
    [] s.mode \in {"ported", "topipe"} ->
         IF c = " " THEN [s EXCEPT !.mode = "topipe"]
         ELSE IF c = "|" THEN [Fresh(Append(s.comps, Made(s)), "terminate") EXCEPT !.mode = "pipe"]
         ELSE Bad
    [] s.mode = "pipe" ->      \* just after a "|"
         IF c \in DOMAIN Policies THEN [s EXCEPT !.mode = "piped", !.pol = Policies[c]]
         ELSE IF c = " " THEN [s EXCEPT !.mode = "gap"]
         ELSE IF c = "[" THEN [s EXCEPT !.mode = "prio"]
         ELSE IF c \in Lower THEN [s EXCEPT !.mode = "type", !.typ = c]
         ELSE Bad
    [] s.mode = "piped" -> IF c = "|" THEN [s EXCEPT !.mode = "gap"] ELSE Bad
    [] s.mode = "bad" -> s

\* What the string read so far means.
Accepts(s) == \/ s.mode = "begin"
              \/ s.mode = "name" /\ s.nam # "" /\ Len(s.comps) >= 1
Meaning(s) == IF s.mode = "begin" THEN <<>> ELSE Append(s.comps, Made(s))
=============================================================================
