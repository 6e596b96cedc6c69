----------------------------- MODULE FramingGen -----------------------------
(***************************************************************************)
(* A source hands over the bytes in pieces of any length; the reader takes  *)
(* at most Cap bytes at a time, keeps what is no line yet and gives out     *)
(* lines.  At the end it gives out the rest.                                *)
(***************************************************************************)
EXTENDS Framing
CONSTANTS Alphabet, MaxLen, MaxPiece, Cap
VARIABLES pieces, avail, kept, out, ended, seen
vars == <<pieces, avail, kept, out, ended, seen>>

Pieces == UNION {[1..k -> Alphabet] : k \in 1..MaxPiece}
Init == pieces = <<>> /\ avail = <<>> /\ kept = <<>> /\ out = <<>> /\ ended = FALSE /\ seen = <<>>
Hand == /\ ~ended /\ avail = <<>> /\ (kept = <<>> \/ \A j \in DOMAIN kept : kept[j] # LF)
        /\ \E p \in Pieces : Len(seen) + Len(p) <= MaxLen
             /\ pieces' = Append(pieces, p) /\ avail' = p /\ seen' = seen \o p
        /\ UNCHANGED <<kept, out, ended>>
Min(a, b) == IF a < b THEN a ELSE b
HasLine(b) == \E j \in DOMAIN b : b[j] = LF
FirstLine(b) == CHOOSE j \in DOMAIN b : b[j] = LF /\ \A m \in 1..(j - 1) : b[m] # LF
Read == /\ avail # <<>> /\ ~HasLine(kept)
        /\ LET n == Min(Cap, Len(avail)) IN kept' = kept \o SubSeq(avail, 1, n) /\ avail' = SubSeq(avail, n + 1, Len(avail))
        /\ UNCHANGED <<pieces, out, ended, seen>>
Give == /\ HasLine(kept)
        /\ LET j == FirstLine(kept) IN out' = Append(out, SubSeq(kept, 1, j)) /\ kept' = SubSeq(kept, j + 1, Len(kept))
        /\ UNCHANGED <<pieces, avail, ended, seen>>
End == ~ended /\ avail = <<>> /\ ~HasLine(kept) /\ ended' = TRUE /\ UNCHANGED <<pieces, avail, kept, out, seen>>
Rest == /\ ended /\ ~HasLine(kept) /\ kept # <<>> /\ out' = Append(out, kept) /\ kept' = <<>> /\ UNCHANGED <<pieces, avail, ended, seen>>
Next == Hand \/ Read \/ Give \/ End \/ Rest
Spec == Init /\ [][Next]_vars

Done == ended /\ avail = <<>> /\ kept = <<>>
Right == Done => Framed(seen, out)
Nothing == Cat(out) \o kept \o avail = seen
\* nothing is held back: when the source waits, all complete lines have been given out
Prompt == (~ended /\ avail = <<>> /\ ~HasLine(kept)) => Len(Cat(out)) = (IF Certain(seen) = {} THEN 0 ELSE CHOOSE j \in Certain(seen) : \A m \in Certain(seen) : m <= j)
Emit == Done => PrintT(<<"PIECES", ToString(pieces)>>)
=============================================================================
