------------------------------- MODULE Lexer -------------------------------
(* The lexical grammar of ECMAScript 2020 (with numeric separators) as the   *)
(* set of ends that each of its productions has in a text, and the reading   *)
(* of one token as the longest of those.                                     *)
(*                                                                           *)
(* A text is a sequence of characters. A character is a string: itself, or   *)
(* the name of a class of characters that the grammar does not tell apart:   *)
(* SP space characters, LF, CR, LS (the separators U+2028 and U+2029), ID    *)
(* (starts names), PT (continues names), BAD (starts nothing).               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

LT == {"LF", "CR", "LS"}
WS == {"SP", " "}
Dig == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Letters == {Lower[i] : i \in 1..26} \cup {Upper[i] : i \in 1..26}
IdStart == Letters \cup {"$", "_", "ID"}
IdPart == IdStart \cup Dig \cup {"PT"}
HexTab == [c \in Dig \cup {"a","b","c","d","e","f","A","B","C","D","E","F"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
    [] c = "8" -> 8 [] c = "9" -> 9 [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
    [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] OTHER -> 15]
Hex == DOMAIN HexTab

Keywords == {"await", "as", "async", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do",
  "else", "enum", "export", "extends", "false", "finally", "for", "from", "function", "get", "if", "implements", "import", "in",
  "instanceof", "interface", "let", "new", "null", "of", "package", "private", "protected", "public", "return", "set", "static",
  "super", "switch", "target", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "yield"}
Puncts == {"{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "+", "-", "*", "/",
  "%", "**", "++", "--", "<<", ">>", ">>>", "&", "|", "^", "!", "~", "&&", "||", "??", "?", "?.", ":", "=", "+=", "-=", "*=", "/=",
  "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "=>"}

(* ---- texts *)
At(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE ""
RECURSIVE Str(_, _, _)
Str(t, i, j) == IF i >= j THEN "" ELSE t[i] \o Str(t, i + 1, j)       \* characters i to j - 1
Is(t, i, s) == i + Len(s) - 1 <= Len(t) /\ Str(t, i, i + Len(s)) = s
Top(S) == CHOOSE x \in S : \A y \in S : y <= x

(* ---- numbers: NumericLiteral and its parts; every operator is the set of ends *)
RECURSIVE DigMore(_, _, _)
DigMore(t, i, S) == {i} \cup (IF At(t, i) \in S THEN DigMore(t, i + 1, S) ELSE {})
                        \cup (IF At(t, i) = "_" /\ At(t, i + 1) \in S THEN DigMore(t, i + 2, S) ELSE {})
Digits(t, i, S) == IF At(t, i) \in S THEN DigMore(t, i + 1, S) ELSE {}
DecInt(t, i) == IF At(t, i) = "0" THEN {i + 1} ELSE Digits(t, i, Dig)
Exp(t, i) == {i} \cup (IF At(t, i) \in {"e", "E"}
                       THEN Digits(t, i + 1, Dig) \cup (IF At(t, i + 1) \in {"+", "-"} THEN Digits(t, i + 2, Dig) ELSE {}) ELSE {})
Frac(t, i) == IF At(t, i) = "." THEN Digits(t, i + 1, Dig) ELSE {}
Decimal(t, i) ==
  LET int == DecInt(t, i)
      dot == {j + 1 : j \in {k \in int : At(t, k) = "."}}
  IN UNION {Exp(t, j) : j \in int \cup dot \cup UNION {Frac(t, k) : k \in int} \cup Frac(t, i)}
Based(t, i, xs, S) == IF At(t, i) = "0" /\ At(t, i + 1) \in xs THEN Digits(t, i + 2, S) ELSE {}
Number(t, i) == IF At(t, i) \notin Dig \cup {"."} THEN {} ELSE
  Decimal(t, i) \cup Based(t, i, {"x", "X"}, Hex) \cup Based(t, i, {"o", "O"}, {"0", "1", "2", "3", "4", "5", "6", "7"})
    \cup Based(t, i, {"b", "B"}, {"0", "1"})

(* ---- escape sequences of code points: <<end, code point>> *)
RECURSIVE HexVal(_, _, _)
HexVal(t, i, j) == IF i >= j THEN 0 ELSE
  LET v == HexVal(t, i, j - 1) IN IF v > 1114111 THEN v ELSE v * 16 + HexTab[t[j - 1]]
RECURSIVE HexEnd(_, _)
HexEnd(t, i) == IF At(t, i) \in Hex THEN HexEnd(t, i + 1) ELSE i
UniEsc(t, i) ==                                   \* at the backslash
  IF At(t, i) # "\\" \/ At(t, i + 1) # "u" THEN {}
  ELSE IF At(t, i + 2) = "{" THEN
    LET j == HexEnd(t, i + 3) IN IF j > i + 3 /\ At(t, j) = "}" /\ HexVal(t, i + 3, j) <= 1114111 THEN {<<j + 1, HexVal(t, i + 3, j)>>} ELSE {}
  ELSE IF \A k \in 2..5 : At(t, i + k) \in Hex THEN {<<i + 6, HexVal(t, i + 2, i + 6)>>} ELSE {}
InRanges(n, rs) == \E r \in rs : n >= r[1] /\ n <= r[2]
StartCP(n) == InRanges(n, {<<65, 90>>, <<97, 122>>, <<36, 36>>, <<95, 95>>, <<170, 170>>, <<181, 181>>, <<186, 186>>,
                           <<192, 214>>, <<216, 246>>, <<248, 255>>})
PartCP(n) == StartCP(n) \/ InRanges(n, {<<48, 57>>, <<183, 183>>})
(* the characters beyond U+00FF are not tabulated; surrogates are in no name *)
KnownCP(n) == n <= 255 \/ (n >= 55296 /\ n <= 57343)
Code(n) == "#" \o ToString(n)
Chr(n) == IF n >= 97 /\ n <= 122 THEN Lower[n - 96] ELSE IF n >= 65 /\ n <= 90 THEN Upper[n - 64]
          ELSE IF n >= 48 /\ n <= 57 THEN (CHOOSE d \in Dig : HexTab[d] = n - 48) ELSE Code(n)

(* ---- names: their end, value, and whether they have an escape or something wrong *)
RECURSIVE Name(_, _, _, _, _)
Name(t, i, v, esc, tag) ==
  IF At(t, i) \in (IF v = <<>> THEN IdStart ELSE IdPart) THEN Name(t, i + 1, Append(v, t[i]), esc, tag)
  ELSE IF UniEsc(t, i) # {} THEN
    LET u == CHOOSE x \in UniEsc(t, i) : TRUE
        bad == IF ~KnownCP(u[2]) THEN "?character" ELSE IF (v = <<>> /\ ~StartCP(u[2])) \/ ~PartCP(u[2]) THEN "error" ELSE tag
    IN Name(t, u[1], Append(v, Chr(u[2])), TRUE, IF tag = "" THEN bad ELSE tag)
  ELSE [e |-> i, v |-> v, esc |-> esc, tag |-> IF At(t, i) = "\\" /\ v # <<>> /\ tag = "" THEN "?stray-backslash" ELSE tag]
NameAt(t, i) == Name(t, i, <<>>, FALSE, "")

(* ---- strings, templates, regular expressions *)
RECURSIVE StringEnd(_, _, _)
StringEnd(t, i, q) ==
  CASE i > Len(t) -> {}
    [] t[i] = q -> {i + 1}
    [] t[i] \in {"LF", "CR"} -> {}
    [] t[i] = "\\" -> IF i = Len(t) THEN {} ELSE StringEnd(t, IF t[i + 1] = "CR" /\ At(t, i + 2) = "LF" THEN i + 3 ELSE i + 2, q)
    [] OTHER -> StringEnd(t, i + 1, q)
(* The value as fajt has it: an escape sequence stands for the character after the backslash. *)
RECURSIVE Kept(_, _, _)
Kept(t, i, j) ==                                   \* the characters i to j - 1, without the quotes
  IF i >= j THEN <<>>
  ELSE IF t[i] = "\\" THEN
    IF t[i + 1] = "CR" /\ At(t, i + 2) = "LF" THEN <<"CR", "LF">> \o Kept(t, i + 3, j) ELSE <<t[i + 1]>> \o Kept(t, i + 2, j)
  ELSE <<t[i]>> \o Kept(t, i + 1, j)
(* The value (SV) of ECMAScript; <<"?">> at the end: not a string, or not decided here. *)
Single == [b |-> 8, t |-> 9, n |-> 10, v |-> 11, f |-> 12, r |-> 13]
RECURSIVE Meant(_, _, _)
Meant(t, i, j) ==
  IF i >= j THEN <<>>
  ELSE IF t[i] # "\\" THEN <<t[i]>> \o Meant(t, i + 1, j)
  ELSE LET c == t[i + 1] IN
    CASE c = "CR" /\ At(t, i + 2) = "LF" -> Meant(t, i + 3, j)
      [] c \in LT -> Meant(t, i + 2, j)
      [] c \in DOMAIN Single -> <<Code(Single[c])>> \o Meant(t, i + 2, j)
      [] c = "0" /\ At(t, i + 2) \notin Dig -> <<Code(0)>> \o Meant(t, i + 2, j)
      [] c = "x" /\ At(t, i + 2) \in Hex /\ At(t, i + 3) \in Hex -> <<Chr(HexVal(t, i + 2, i + 4))>> \o Meant(t, i + 4, j)
      [] c = "u" /\ UniEsc(t, i) # {} -> LET u == CHOOSE x \in UniEsc(t, i) : TRUE IN
            IF u[2] >= 55296 /\ u[2] <= 57343 THEN <<"?">> ELSE <<Chr(u[2])>> \o Meant(t, u[1], j)
      [] c \in Dig \cup {"x", "u"} -> <<"?">>
      [] OTHER -> <<c>> \o Meant(t, i + 2, j)

RECURSIVE TemplateEnd(_, _)
TemplateEnd(t, i) ==                               \* <<end, has a substitution after it>>
  CASE i > Len(t) -> {}
    [] t[i] = "`" -> {<<i + 1, FALSE>>}
    [] t[i] = "$" /\ At(t, i + 1) = "{" -> {<<i + 2, TRUE>>}
    [] t[i] = "\\" -> IF i = Len(t) THEN {} ELSE TemplateEnd(t, i + 2)
    [] OTHER -> TemplateEnd(t, i + 1)

RECURSIVE RegexBody(_, _, _)
RegexBody(t, i, class) ==
  CASE i > Len(t) \/ At(t, i) \in LT -> {}
    [] t[i] = "\\" -> IF i = Len(t) \/ At(t, i + 1) \in LT THEN {} ELSE RegexBody(t, i + 2, class)
    [] t[i] = "[" /\ ~class -> RegexBody(t, i + 1, TRUE)
    [] t[i] = "]" /\ class -> RegexBody(t, i + 1, FALSE)
    [] t[i] = "/" /\ ~class -> {i + 1}
    [] OTHER -> RegexBody(t, i + 1, class)
RECURSIVE PartEnd(_, _)
PartEnd(t, i) == IF At(t, i) \in IdPart THEN PartEnd(t, i + 1) ELSE i
Regex(t, i) == IF At(t, i) = "/" /\ At(t, i + 1) \notin {"*", "/"} THEN {PartEnd(t, j) : j \in RegexBody(t, i + 1, FALSE)} ELSE {}

(* ---- what may lie between tokens *)
RECURSIVE LineEnd(_, _)
LineEnd(t, i) == IF i > Len(t) \/ At(t, i) \in LT THEN i ELSE LineEnd(t, i + 1)
RECURSIVE CommentEnd(_, _)
CommentEnd(t, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = "*" /\ At(t, i + 1) = "/" THEN i + 2 ELSE CommentEnd(t, i + 1)

(* Skips from i; f: a line terminator has been passed since the last token (or there is none). *)
RECURSIVE Skip(_, _, _, _)
Skip(t, i, f, html) ==
  CASE i > Len(t) -> [i |-> i, f |-> f, bad |-> FALSE]
    [] t[i] \in LT -> Skip(t, i + 1, TRUE, html)
    [] t[i] \in WS -> Skip(t, i + 1, f, html)
    [] t[i] = "/" /\ At(t, i + 1) = "/" -> Skip(t, LineEnd(t, i + 2), f, html)
    [] t[i] = "/" /\ At(t, i + 1) = "*" ->
         LET j == CommentEnd(t, i + 2) IN
         IF j = 0 THEN [i |-> i, f |-> f, bad |-> TRUE]
         ELSE Skip(t, j, f \/ \E k \in i + 2 .. j - 3 : t[k] \in LT, html)
    [] (t[i] = "<" /\ Is(t, i, "<!--")) \/ (t[i] = "-" /\ f /\ Is(t, i, "-->")) ->
         IF html THEN Skip(t, LineEnd(t, i + 3), f, html) ELSE [i |-> i, f |-> f, bad |-> TRUE]
    [] OTHER -> [i |-> i, f |-> f, bad |-> FALSE]

(* ---- reading the token that begins at or after i, with goal g = [re, html, tpl] *)
Tok(k, s, e, f, v, r, tag) == [k |-> k, s |-> s, e |-> e, f |-> f, v |-> v, r |-> r, tag |-> tag]
End(i) == Tok("end", i, i, FALSE, <<>>, <<>>, "")
Err(i, tag) == Tok("err", i, i, FALSE, <<>>, <<>>, tag)
Unknown == Tok("unknown", 0, 0, FALSE, <<>>, <<>>, "?after-an-error")

Punct(t, i, g) ==
  {i + n : n \in {k \in 1..4 : i + k - 1 <= Len(t) /\ Str(t, i, i + k) \in Puncts
                    /\ ~(k = 2 /\ Is(t, i, "?.") /\ At(t, i + 2) \in Dig)
                    /\ ~(g.re /\ At(t, i) = "/")}}

Longest(t, i, f, g) ==
  LET c == At(t, i)
      num == Number(t, i)
      pun == Punct(t, i, g)
      reg == IF g.re THEN Regex(t, i) ELSE {}
      name == NameAt(t, i)
  IN CASE c \in {"'", "\""} ->
            IF StringEnd(t, i + 1, c) = {} THEN Err(i, "")
            ELSE LET e == Top(StringEnd(t, i + 1, c)) IN Tok("str", i, e, f, Kept(t, i + 1, e - 1), Meant(t, i + 1, e - 1), "")
       [] c = "`" ->
            IF TemplateEnd(t, i + 1) = {} THEN Err(i, "")
            ELSE LET e == CHOOSE x \in TemplateEnd(t, i + 1) : TRUE
                     v == SubSeq(t, i + 1, e[1] - (IF e[2] THEN 3 ELSE 2))
                 IN Tok(IF e[2] THEN "head" ELSE "tpl", i, e[1], f, v, v, "")
       [] name.e > i ->
            IF name.tag = "error" THEN Err(i, "")
            ELSE LET w == \A k \in DOMAIN name.v : name.v[k] \in Letters
                     kw == w /\ Str(name.v, 1, Len(name.v) + 1) \in Keywords
                 IN Tok(IF kw THEN "word" ELSE "name", i, name.e, f, name.v, IF kw /\ name.esc THEN <<"?">> ELSE name.v, name.tag)
       [] num # {} /\ (pun = {} \/ Top(num) > Top(pun)) ->
            LET e == Top(num) IN
            IF At(t, e) = "n" THEN Err(i, "?bigint")
            ELSE IF At(t, e) \in IdStart \cup Dig \cup {"\\"} THEN Err(i, "")
            ELSE LET v == SubSeq(t, i, e - 1) IN Tok("num", i, e, f, v, v, "")
       [] reg # {} -> LET e == Top(reg) v == SubSeq(t, i, e - 1) IN
            Tok("regex", i, e, f, v, v, IF At(t, e) = "\\" THEN "?stray-backslash" ELSE "")
       [] pun # {} ->
            LET e == Top(pun) v == SubSeq(t, i, e - 1) IN
            \* fajt refuses `..`, which no program contains outside of comments and literals
            IF v = <<".">> /\ At(t, e) = "." THEN Err(i, "?two-periods") ELSE Tok("punct", i, e, f, v, v, "")
       [] OTHER -> Err(i, IF c = "#" /\ At(t, i + 1) \in IdStart \cup {"!", "\\"} THEN "?hash" ELSE "")

Read(t, i, f, g) ==
  IF g.tpl THEN
    IF At(t, i) # "}" \/ TemplateEnd(t, i + 1) = {} THEN Err(i, "")
    ELSE LET e == CHOOSE x \in TemplateEnd(t, i + 1) : TRUE
             v == SubSeq(t, i + 1, e[1] - (IF e[2] THEN 3 ELSE 2))
         IN Tok(IF e[2] THEN "middle" ELSE "tail", i, e[1], f, v, v, "")
  ELSE LET s == Skip(t, i, f, g.html) IN
    IF s.bad THEN Err(s.i, "") ELSE IF s.i > Len(t) THEN End(s.i) ELSE Longest(t, s.i, s.f, g)

Stops == {"end", "err", "unknown"}
RECURSIVE Stream(_, _, _, _)
Stream(t, i, f, g) == LET k == Read(t, i, f, g) IN
  <<k>> \o (IF k.k \in Stops THEN <<>> ELSE Stream(t, k.e, FALSE, g))

Goal(re, html) == [re |-> re, html |-> html, tpl |-> FALSE]
Template == [re |-> FALSE, html |-> TRUE, tpl |-> TRUE]

(* ------------------------------------------------------------------------- *)
(* Laws of token streams. Trivia: the sets of ends of a run of white space,  *)
(* line terminators and comments.                                            *)
RECURSIVE Trivia(_, _, _)
Trivia(t, i, j) ==                                 \* the characters i to j - 1 are trivia
  \/ i = j
  \/ i < j /\ t[i] \in LT \cup WS /\ Trivia(t, i + 1, j)
  \/ i < j /\ \E n \in {"//", "<!--", "-->"} : Is(t, i, n) /\ \E k \in i + Len(n) .. j :
        /\ k = j \/ t[k] \in LT
        /\ \A x \in i .. k - 1 : t[x] \notin LT
        /\ Trivia(t, k, j)
  \/ i + 3 < j /\ Is(t, i, "/*") /\ \E k \in i + 4 .. j : Is(t, k - 2, "*/") /\ (\A x \in i + 2 .. k - 3 : ~Is(t, x, "*/")) /\ Trivia(t, k, j)

StartOf(S, n) == IF n = 1 THEN 1 ELSE S[n - 1].e
Covered(t, S) ==                                   \* in order, and nothing but trivia between them
  \A n \in DOMAIN S : S[n].k # "unknown" =>
    /\ S[n].s >= StartOf(S, n) /\ (S[n].k \notin Stops => S[n].e > S[n].s)
    /\ S[n].k # "err" => Trivia(t, StartOf(S, n), S[n].s)
    /\ S[n].k = "end" => S[n].s = Len(t) + 1
Flagged(t, S) ==                                   \* first on its line
  \A n \in DOMAIN S : S[n].k \notin Stops =>
    (S[n].f <=> n = 1 \/ \E i \in S[n - 1].e .. S[n].s - 1 : t[i] \in LT)
Alone(t, S, g) ==                                  \* the text of a token is that token
  \A n \in DOMAIN S : S[n].k \notin Stops /\ S[n].tag = "" =>
    LET u == SubSeq(t, S[n].s, S[n].e - 1) k == Read(u, 1, FALSE, g) IN
    k.k = S[n].k /\ k.e = Len(u) + 1 /\ k.v = S[n].v
(* no longer text is one token *)
Maximal(t, S, g) ==
  \A n \in DOMAIN S : S[n].k \notin Stops /\ S[n].tag = "" => \A e \in S[n].e + 1 .. Len(t) + 1 :
    LET u == SubSeq(t, S[n].s, e - 1) k == Read(u, 1, FALSE, g) IN
    k.k \in Stops \/ k.e < Len(u) + 1 \/ u = <<"?", ".">>
=============================================================================
