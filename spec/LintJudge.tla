----------------------------- MODULE LintJudge -----------------------------
EXTENDS Lint, Json, IOUtils
VARIABLE i
T == ndJsonDeserialize(IOEnv.TRACEFILE)
S(q) == {q[k] : k \in DOMAIN q}
Cfg(r) == [settings |-> S(r.settings), used |-> S(r.used), monitors |-> S(r.monitors), badjoins |-> S(r.badjoins)]
Right(r) == CASE r.run = "lint" -> LintRight(Cfg(r), S(r.rep), r.rc)
              [] r.run = "process" -> ProcessRight(Cfg(r), [rep |-> S(r.rep), rc |-> r.rc, started |-> S(r.started), touched |-> S(r.touched)])
Init == i \in DOMAIN T
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Judge == PrintT(<<"JUDGE", T[i].sid, Right(T[i]), ToString(Findings(Cfg(T[i])))>>)
=============================================================================
