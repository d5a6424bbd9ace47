------------------------------- MODULE Reader ------------------------------
(* The reader over the tokens of a text: two slots (current and next), the   *)
(* place where the lexer stands, and the operations consume, rewind to a     *)
(* token consumed earlier, and re-read of the current token with another     *)
(* goal. That it behaves as reading from the start would is an invariant.    *)
EXTENDS Lexer
CONSTANTS Texts,            \* sequence of texts
          Depth,            \* histories of at most so many operations
          Biased            \* for random histories: consume more often than not
VARIABLES x,                \* the text, by its index in Texts
          html,             \* whether HTML-like comments are allowed
          cur, nxt,         \* the two slots
          at, fol,          \* the lexer: where it stands (0: somewhere after an error), whether at the start of a line
          pos,              \* end of the last token consumed
          seen, ends,       \* tokens consumed (and not rewound)
          goals,            \* ghost: the goals with which the tokens up to the current one were asked for
          hist, obs         \* operations so far and what can be seen after each
vars == <<x, html, cur, nxt, at, fol, pos, seen, ends, goals, hist, obs>>

T == Texts[x]
Default == IF html THEN "default" ELSE "nohtml"
Named == [default |-> Goal(FALSE, TRUE), nohtml |-> Goal(FALSE, FALSE), regex |-> Goal(TRUE, TRUE),
          regex_nohtml |-> Goal(TRUE, FALSE), template |-> Template]
(* every reading there can be, worked out once *)
Tab == [y \in DOMAIN Texts |-> [i \in 1..Len(Texts[y]) + 1 |-> [f \in BOOLEAN |-> [g \in DOMAIN Named |-> Read(Texts[y], i, f, Named[g])]]]]
Skips == [y \in DOMAIN Texts |-> [i \in 1..Len(Texts[y]) + 1 |-> [f \in BOOLEAN |-> [h \in BOOLEAN |-> Skip(Texts[y], i, f, h)]]]]
(* The lexer reads with a goal from where it stands: <<item, where it stands then, flag>> *)
Lex(i, f, g) ==
  IF i = 0 THEN <<Unknown, 0, FALSE>>
  ELSE LET k == Tab[x][i][f][g] IN
    IF k.k = "end" THEN <<k, k.e, f>>
    ELSE IF k.k \in Stops \/ k.tag # "" THEN <<k, 0, FALSE>> ELSE <<k, k.e, FALSE>>
Good(k) == k.k \notin Stops
(* where the current and the next item are, in terms of the text alone *)
Brief(k) == <<k.k, k.s, k.e, k.f, k.v, IF k.r = k.v THEN <<>> ELSE <<k.r>>, k.tag>>
See(c, n, p, r) == [cur |-> Brief(c), nxt |-> Brief(n), pos |-> p, res |-> Brief(r)]

Init ==
  /\ x \in DOMAIN Texts /\ html \in BOOLEAN
  /\ LET a == Lex(1, TRUE, Default) b == Lex(a[2], a[3], Default) IN
       /\ cur = a[1] /\ nxt = b[1] /\ at = b[2] /\ fol = b[3]
       /\ obs = <<See(a[1], b[1], 1, Unknown)>>
  /\ pos = 1 /\ seen = <<>> /\ ends = <<>> /\ hist = <<>>
  /\ goals = <<"default">>

Consume ==
  LET a == Lex(at, fol, Default) IN
  /\ cur' = nxt /\ nxt' = a[1] /\ at' = a[2] /\ fol' = a[3]
  /\ pos' = IF Good(cur) THEN cur.e ELSE IF cur.k = "unknown" \/ cur.tag # "" THEN 0 ELSE pos
  /\ seen' = IF Good(cur) THEN Append(seen, cur) ELSE seen
  /\ goals' = IF Good(cur) THEN Append(goals, "default") ELSE goals
  /\ hist' = Append(hist, "consume")
  /\ obs' = Append(obs, See(cur', nxt', pos', cur))
  /\ UNCHANGED <<x, html, ends>>
Rewind(k) ==                                       \* to the k-th token consumed
  LET a == Lex(seen[k].s, seen[k].f, Default) b == Lex(a[2], a[3], Default) IN
  /\ cur' = a[1] /\ nxt' = b[1] /\ at' = b[2] /\ fol' = b[3]
  /\ pos' = pos
  /\ seen' = SubSeq(seen, 1, k - 1)
  /\ goals' = Append(SubSeq(goals, 1, k - 1), "default")
  /\ hist' = Append(hist, <<"rewind", k - 1>>)
  /\ obs' = Append(obs, See(cur', nxt', pos', Unknown))
  /\ UNCHANGED <<x, html, ends>>
ReRead(g) ==
  LET a == Lex(cur.s, cur.f, g) b == Lex(a[2], a[3], Default) IN
  /\ Good(cur)
  /\ cur' = a[1] /\ nxt' = b[1] /\ at' = b[2] /\ fol' = b[3]
  /\ goals' = [goals EXCEPT ![Len(goals)] = g]
  /\ hist' = Append(hist, <<"reread", g>>)
  /\ obs' = Append(obs, See(cur', nxt', pos, Unknown))
  /\ UNCHANGED <<x, html, pos, seen, ends>>

(* the parser asks for a regular expression at a slash, for a template at a closing brace *)
GoalsHere == {IF html THEN "default" ELSE "nohtml", IF html THEN "regex" ELSE "regex_nohtml"}
  \cup (IF Good(cur) /\ At(T, cur.s) = "}" THEN {"template"} ELSE {})
Next == /\ Len(hist) < Depth
        /\ \/ Consume
           \/ Biased /\ Consume /\ TRUE
           \/ \E k \in DOMAIN seen : Rewind(k)
           \/ \E g \in GoalsHere : ReRead(g)
(* a history goes on as it does from here, whatever led here *)
View == <<x, html, cur, nxt, at, fol, pos, seen, goals>>

(* ---- what reading from the start, with the goals last asked for, gives *)
RECURSIVE FromStart(_, _, _, _)
FromStart(i, f, n, S) ==
  LET g == IF goals[n] = "default" THEN Default ELSE goals[n]
      s == Skips[x][i][f][html]                   \* a template goes on at a brace, after what is skipped before it
      k == IF g = "template" THEN Tab[x][s.i][s.f][g] ELSE Tab[x][i][f][g] IN
  IF n = Len(goals) \/ ~Good(k) THEN Append(S, k) ELSE FromStart(k.e, FALSE, n + 1, Append(S, k))
Straight == FromStart(1, TRUE, 1, <<>>)
Known(k) == k.k # "unknown" /\ k.tag = ""
SameStream ==
  LET S == Straight IN
  /\ Known(cur) => Len(S) = Len(goals) /\ S[Len(S)] = cur
  /\ Good(cur) /\ Known(cur) => nxt = Tab[x][cur.e][FALSE][Default]
  /\ \A k \in DOMAIN seen : seen[k] = S[k]
  /\ cur.k = "end" => nxt.k = "end"
=============================================================================
