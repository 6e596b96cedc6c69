------------------------------ MODULE Framing ------------------------------
(* Bytes cut into messages.  10 is LF. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LF == 10
RECURSIVE Cat(_)
Cat(ms) == IF ms = <<>> THEN <<>> ELSE LET h == Len(ms) \div 2 IN
             IF Len(ms) = 1 THEN ms[1] ELSE Cat(SubSeq(ms, 1, h)) \o Cat(SubSeq(ms, h + 1, Len(ms)))
\* the messages of some bytes
Framed(bytes, ms) ==
  /\ Cat(ms) = bytes
  /\ \A k \in DOMAIN ms : LET m == ms[k] IN
       /\ m # <<>>
       /\ \A j \in 1..(Len(m) - 1) : m[j] # LF
       /\ k < Len(ms) => m[Len(m)] = LF
\* what has been delivered when only some of the bytes are known: all which are certain, and no other
Certain(bytes) == {j \in DOMAIN bytes : bytes[j] = LF}

(* The same for long streams, written as runs <<byte, how many>>, each next to a different one. *)
RECURSIVE CatRuns(_)
CatRuns(ms) ==
  IF ms = <<>> THEN <<>>
  ELSE IF Len(ms) = 1 THEN ms[1]
  ELSE LET h == Len(ms) \div 2
           a == CatRuns(SubSeq(ms, 1, h))
           b == CatRuns(SubSeq(ms, h + 1, Len(ms)))
       IN IF a = <<>> \/ b = <<>> THEN a \o b
          ELSE IF a[Len(a)][1] = b[1][1]
               THEN SubSeq(a, 1, Len(a) - 1) \o << <<b[1][1], a[Len(a)][2] + b[1][2]>> >> \o SubSeq(b, 2, Len(b))
               ELSE a \o b
FramedRuns(runs, ms) ==
  /\ CatRuns(ms) = runs
  /\ \A k \in DOMAIN ms : LET m == ms[k] IN
       /\ m # <<>>
       /\ \A j \in 1..(Len(m) - 1) : m[j][1] # LF
       /\ m[Len(m)][1] = LF => m[Len(m)][2] = 1
       /\ k < Len(ms) => m[Len(m)][1] = LF
=============================================================================
