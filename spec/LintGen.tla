------------------------------ MODULE LintGen ------------------------------
(* Every configuration over a small menu, reached by adding one thing at a  *)
(* time; printed for the real program.  Checks that what lint finds grows   *)
(* and shrinks with the right additions.                                    *)
EXTENDS Lint
CONSTANTS Names, Monitored, MaxThings
VARIABLE c, n
Types == Required \cup {"buffer", "junction"}
Init == c = [settings |-> {}, used |-> {}, monitors |-> {}, badjoins |-> {}] /\ n = 0
AddSetting == \E t \in Required, x \in Names : c' = [c EXCEPT !.settings = @ \cup {<<t, x>>}]
AddUse     == \E t \in Types, x \in Names : c' = [c EXCEPT !.used = @ \cup {<<t, x>>}]
AddMonitor == \E s \in c.settings, b \in Monitored :
                s[1] = "regulator" /\ c' = [c EXCEPT !.monitors = @ \cup {<<s[2], b>>}]
AddBad     == c.badjoins = {} /\ c' = [c EXCEPT !.badjoins = {"bad"}]
Next == n < MaxThings /\ n' = n + 1 /\ (AddSetting \/ AddUse \/ AddMonitor \/ AddBad) /\ c' # c
View == c
Spec == Init /\ [][Next]_<<c, n>>

\* a setting can only remove "missing" and add "unused"; a use the other way round
Monotone ==
  [][c.badjoins = {} /\ c'.badjoins = {} =>
     /\ c'.used = c.used => Missing(c') \subseteq Missing(c) /\ Unused(c) \subseteq Unused(c')
     /\ c'.settings = c.settings => Unused(c') \subseteq Unused(c) /\ Missing(c) \subseteq Missing(c')]_<<c, n>>
Disjoint == \A s \in c.settings : <<"0002", s[1], s[2]>> \notin Findings(c)
Emit == PrintT(<<"CFG", c.settings, c.used, c.monitors, c.badjoins>>)
=============================================================================
