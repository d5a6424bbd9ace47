------------------------------- MODULE Texts -------------------------------
(* Texts over small alphabets, grown character by character (or piece by     *)
(* piece), with their token streams.                                         *)
EXTENDS Lexer
CONSTANT Configs            \* sequence of [pieces, max, pre, post, goals, last], last: report only the longest
VARIABLES c, t, n
vars == <<c, t, n>>

(* (TLC evaluates a constant anew at every use; the comparison puts the sets in their normal form.) *)
ASSUME TLCSet(1000000, Configs) /\ TLCGet(1000000) = TLCGet(1000000)
Cfgs == TLCGet(1000000)
Init == c \in DOMAIN Cfgs /\ t = <<>> /\ n = 0
Next == /\ n < Cfgs[c].max
        /\ \E p \in Cfgs[c].pieces : t' = t \o p
        /\ n' = n + 1 /\ UNCHANGED c

Reported == ~Cfgs[c].last \/ n = Cfgs[c].max
Text == Cfgs[c].pre \o t \o Cfgs[c].post
Goals == Cfgs[c].goals
Streams == [i \in DOMAIN Goals |-> Stream(Text, 1, TRUE, Goals[i])]
Plain(S, g) == Covered(Text, S) /\ Flagged(Text, S) /\ Alone(Text, S, g)
Laws == \A i \in DOMAIN Goals : Goals[i].tpl \/ Plain(Streams[i], Goals[i])
LongestLaw == \A i \in DOMAIN Goals : Goals[i].tpl \/ Maximal(Text, Streams[i], Goals[i])
(* with the first token read by goal i, the rest by the default goal *)
Template1 == LET k == Read(Text, 1, TRUE, Template) IN
  <<k>> \o (IF k.k \in Stops THEN <<>> ELSE Stream(Text, k.e, FALSE, Goal(FALSE, TRUE)))
Row(S) == [i \in DOMAIN S |-> <<S[i].k, S[i].s, S[i].e, S[i].f, S[i].v, IF S[i].r = S[i].v THEN <<>> ELSE <<S[i].r>>, S[i].tag>>]
Rows == [i \in DOMAIN Goals |-> Row(IF Goals[i].tpl THEN Template1 ELSE Streams[i])]
=============================================================================
