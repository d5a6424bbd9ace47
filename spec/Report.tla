------------------------------- MODULE Report ------------------------------
(* What a report shows of an error that covers the characters s to e - 1 of  *)
(* a text: the line and column of its start, and every line it is on, with   *)
(* its number, tabs as four spaces, and marks under what the error covers.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Configs            \* sequence of [before, bad, after, max, maxafter]: pieces and their numbers; bad: what leads to the error, and it
VARIABLES c, p, b, q, n     \* configuration, text before, what is wrong, text after, pieces so far
vars == <<c, p, b, q, n>>

LT == {"LF", "CR", "LS"}
At(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE ""
(* A line ends before a terminator; CR LF is one. *)
Breaks(t) == {i \in 1..Len(t) : t[i] \in LT /\ ~(t[i] = "LF" /\ At(t, i - 1) = "CR")}
After(t, i) == IF t[i] = "CR" /\ At(t, i + 1) = "LF" THEN i + 2 ELSE i + 1
Count(t, i) == 1 + Cardinality({k \in Breaks(SubSeq(t, 1, i)) : After(t, k) <= i})   \* number of the line that i is on
Begin(t, i) == LET S == {After(t, k) : k \in {x \in Breaks(t) : After(t, x) <= i}} IN
  IF S = {} THEN 1 ELSE CHOOSE x \in S : \A y \in S : y <= x
Finish(t, i) == LET S == {k \in Breaks(t) : k >= i} IN
  IF S = {} THEN Len(t) + 1 ELSE CHOOSE x \in S : \A y \in S : y >= x
Width(t, i, j) == (j - i) + 3 * Cardinality({k \in i..(j - 1) : t[k] = "TAB"})
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y

(* rows: <<number, first character, end, marks begin after so many columns, number of marks>> *)
Row(t, s, e, from) ==
  LET to == Finish(t, from)
      a == Max(s, from)
      z == Min(e, to)
  IN <<Count(t, from), from, to, IF a <= to THEN Width(t, from, a) ELSE 0, IF z > a THEN Width(t, a, z) ELSE 0>>
RECURSIVE Rows(_, _, _, _)
Rows(t, s, e, from) ==
  <<Row(t, s, e, from)>> \o
    (LET to == Finish(t, from) IN IF to > Len(t) \/ After(t, to) >= e THEN <<>> ELSE Rows(t, s, e, After(t, to)))
Report(t, s, e) == [line |-> Count(t, s), col |-> s - Begin(t, s) + 1, rows |-> Rows(t, s, e, Begin(t, s))]

(* ---- texts with an error at a known place *)
(* (TLC evaluates a constant anew at every use; the comparison puts the sets in their normal form.) *)
ASSUME TLCSet(1000000, Configs) /\ TLCGet(1000000) = TLCGet(1000000)
Cfgs == TLCGet(1000000)
Init == c \in DOMAIN Cfgs /\ p = <<>> /\ q = <<>> /\ n = 0 /\ b \in Cfgs[c].bad
Next ==
  \/ n < 100 /\ n < Cfgs[c].max /\ (\E x \in Cfgs[c].before : p' = p \o x) /\ n' = n + 1 /\ UNCHANGED <<c, b, q>>
  \/ /\ n < 100 /\ n' = 100 /\ UNCHANGED <<c, p, b>>
     /\ \E k \in 0..Cfgs[c].maxafter : \E f \in [1..k -> Cfgs[c].after] :
          q' = IF k = 0 THEN <<>> ELSE IF k = 1 THEN f[1] ELSE f[1] \o f[2]
Text == p \o b[1] \o b[2] \o q
S == Len(p \o b[1]) + 1
E == S + Len(b[2])
Here == LET t == Text IN Report(t, S, E)

(* Laws: the marks, taken back to characters, are the characters of the error; rows are consecutive lines. *)
RECURSIVE Columns(_, _, _)
Columns(t, i, col) == IF col <= 0 THEN i ELSE Columns(t, i + 1, col - (IF At(t, i) = "TAB" THEN 4 ELSE 1))
Marked(t, r) == Columns(t, r[2], r[4])..(Columns(t, r[2], r[4] + r[5]) - 1)
Laws ==
  LET t == Text
      R == Report(t, S, E).rows
      B == Breaks(t)
  IN
  /\ UNION {Marked(t, R[i]) : i \in DOMAIN R} = {i \in S..E - 1 : i \notin B /\ ~(At(t, i) = "LF" /\ At(t, i - 1) = "CR")}
  /\ R[1][1] = Here.line
  /\ \A i \in DOMAIN R : R[i][1] = Here.line + i - 1 /\ \A k \in R[i][2]..R[i][3] - 1 : t[k] \notin LT
  /\ \A i \in DOMAIN R : i > 1 => R[i][2] = After(t, R[i - 1][3])
=============================================================================
