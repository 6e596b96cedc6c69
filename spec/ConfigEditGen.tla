--------------------------- MODULE ConfigEditGen ---------------------------
(* Histories of commands.  Checked exhaustively on small menus; printed     *)
(* from simulation on larger ones, to be carried out by the real program.   *)
EXTENDS ConfigEdit
CONSTANTS Ids, Vals, Keys, Joins, Water, MaxArgs, MaxLen, Shown
VARIABLES cfg, cmd, start, n, hist

Seqs(S, m) == UNION {[1..k -> S] : k \in 1..m}
Blank == [faucet |-> Empty, drain |-> Empty, regulator |-> Empty, launch |-> Empty, connection |-> Empty]
V1 == CHOOSE v \in Vals : TRUE
J1 == CHOOSE j \in Joins : TRUE
Rich == [faucet |-> [i \in Ids |-> V1], drain |-> [i \in Ids |-> V1],
         regulator |-> [i \in Ids |-> [water |-> <<>>, mon |-> <<V1>>]],
         launch |-> [i \in Ids |-> [cmd |-> <<V1>>, path |-> <<V1>>, arg |-> <<V1, V1>>, env |-> [k \in Keys |-> V1]]],
         connection |-> [i \in Ids |-> J1]]
None == [op |-> "none", id |-> "", v |-> <<>>, bad |-> FALSE]
Init == start \in {"blank", "rich"} /\ cfg = (IF start = "blank" THEN Blank ELSE Rich) /\ cmd = None /\ n = 0 /\ hist = <<>>

Ops == {"source", "destination", "command", "path", "args", "env", "watermark", "join"}
Values(o) == CASE o \in {"source", "destination", "command", "path"} -> Seqs(Vals, 1)
               [] o = "args" -> Seqs(Vals, MaxArgs)
               [] o = "env" -> Seqs(Keys \X Vals, MaxArgs)
               [] o = "watermark" -> {<<a, b>> : a \in Water, b \in Water}
               [] o = "join" -> Seqs(Joins, 1)
Do(c) == cmd' = c /\ cfg' = Apply(cfg, c) /\ hist' = IF Shown THEN Append(hist, <<c.op, c.id, c.bad, c.v>>) ELSE hist

\* one operation is as likely as another
Next == /\ (Shown /\ n = MaxLen) => PrintT(<<"HIST", start, ToString(hist)>>)
        /\ n < MaxLen /\ n' = n + 1 /\ UNCHANGED start
        /\ \E i \in Ids, o \in Ops :
             \/ IF Shown THEN LET v == RandomElement(Values(o)) IN Do([op |-> o, id |-> i, v |-> v, bad |-> FALSE])
                ELSE \E v \in Values(o) : Do([op |-> o, id |-> i, v |-> v, bad |-> FALSE])
             \/ o \in {"watermark", "env", "join"} /\ (Shown => n % 3 = 2) /\ Do([op |-> o, id |-> i, v |-> <<>>, bad |-> TRUE])
Spec == Init /\ [][Next]_<<cfg, cmd, start, n, hist>>
View == cfg

\* Only the named entry of one section changes, and doing it twice is doing it once.
OnlyNamed == [][\A s \in DOMAIN cfg : \A i \in DOMAIN cfg[s] :
                   (s # Section(cmd') \/ i # cmd'.id) => (i \in DOMAIN cfg'[s] /\ cfg'[s][i] = cfg[s][i])]_<<cfg, cmd, start, n, hist>>
Idempotent == [][Apply(cfg', cmd') = cfg']_<<cfg, cmd, start, n, hist>>
NothingElse == [][\A s \in DOMAIN cfg : DOMAIN cfg'[s] \subseteq DOMAIN cfg[s] \cup (IF s = Section(cmd') THEN {cmd'.id} ELSE {})]_<<cfg, cmd, start, n, hist>>
\* settings of one launch do not disturb each other
Independent == [][Section(cmd') = "launch" /\ ~cmd'.bad =>
                    LET a == Get(cfg.launch, cmd'.id, NewLaunch)  b == cfg'.launch[cmd'.id]
                        f == CASE cmd'.op = "command" -> "cmd" [] cmd'.op = "args" -> "arg" [] OTHER -> cmd'.op
                    IN \A k \in DOMAIN a \ {f} : a[k] = b[k]]_<<cfg, cmd, start, n, hist>>
=============================================================================
