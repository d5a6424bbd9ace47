-------------------------------- MODULE Ast --------------------------------
(***************************************************************************)
(* The syntax tree that the parser has to deliver, as TLA+ values.         *)
(*                                                                         *)
(* A value has the shape of the serialised tree of the implementation: a   *)
(* variant is a record with one field, a node is a record, an absent       *)
(* child is Null.  A span <<i, j>> stands for a range of tokens; the node  *)
(* begins where token i begins and ends where token j ends.  <<i, 0>> is   *)
(* the empty span at the beginning of token i.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, FiniteSets, Functions

Null == [isnull |-> TRUE]
(* A variant without content. *)
Unit(n) == [unit |-> n]
SeqSet(s) == {s[i] : i \in DOMAIN s}

Variant(v) == CHOOSE k \in DOMAIN v : TRUE
Is(v, k) == k \in DOMAIN v
SpanOf(v) == v[Variant(v)].span

(* Lexical values of the tokens that carry one. *)
NumToks == <<"1", "0x1F", ".5", "2e3">>
StrTab == ("'s'" :> [value |-> "s", delimiter |-> "'"])
       @@ ("\"t\"" :> [value |-> "t", delimiter |-> "\""])
       @@ ("''" :> [value |-> "", delimiter |-> "'"])
       @@ ("'use strict'" :> [value |-> "use strict", delimiter |-> "'"])
       @@ ("\"use strict\"" :> [value |-> "use strict", delimiter |-> "\""])
       @@ ("'constructor'" :> [value |-> "constructor", delimiter |-> "'"])
StrToks == <<"'s'", "\"t\"", "''", "'use strict'", "\"use strict\"", "'constructor'">>
RegToks == <<"/r/", "/[/]/g", "/=x/u">>
TplNo == <<"`t`", "``">>
TplHead == <<"`h${", "`${">>
TplMid == <<"}m${", "}${">>
TplTail == <<"}e`", "}`">>
TplStr == ("`t`" :> "t") @@ ("``" :> "") @@ ("`h${" :> "h") @@ ("`${" :> "")
       @@ ("}m${" :> "m") @@ ("}${" :> "") @@ ("}e`" :> "e") @@ ("}`" :> "")

BinOps == <<  \* by precedence level; level 1 and 2 are logical
  <<"||">>, <<"&&">>, <<"|">>, <<"^">>, <<"&">>,
  <<"==", "!=", "===", "!==">>,
  <<"<", ">", "<=", ">=", "instanceof", "in">>,
  <<"<<", ">>", ">>>">>, <<"+", "-">>, <<"*", "/", "%">> >>
BinName == ("|" :> "BitwiseOR") @@ ("^" :> "BitwiseXOR") @@ ("&" :> "BitwiseAnd")
  @@ ("==" :> "Equal") @@ ("!=" :> "NotEqual") @@ ("===" :> "StrictEqual") @@ ("!==" :> "StrictNotEqual")
  @@ ("<" :> "LessThan") @@ (">" :> "MoreThan") @@ ("<=" :> "LessThanEquals") @@ (">=" :> "MoreThanEquals")
  @@ ("instanceof" :> "InstanceOf") @@ ("in" :> "In")
  @@ ("<<" :> "ShiftLeft") @@ (">>" :> "ShiftRight") @@ (">>>" :> "ShiftRightUnsigned")
  @@ ("+" :> "Plus") @@ ("-" :> "Minus") @@ ("*" :> "Multiplication") @@ ("/" :> "Division")
  @@ ("%" :> "Modulus") @@ ("**" :> "Exponent")
LogName == ("||" :> "Or") @@ ("&&" :> "And") @@ ("??" :> "Coalesce")
UnOps == <<"+", "-", "~", "!", "delete", "void", "typeof">>
UnName == ("+" :> "Plus") @@ ("-" :> "Minus") @@ ("~" :> "BitwiseNot") @@ ("!" :> "Not")
  @@ ("delete" :> "Delete") @@ ("void" :> "Void") @@ ("typeof" :> "Typeof")
UpdOps == <<"++", "--">>
UpdName == ("++" :> "Increase") @@ ("--" :> "Decrease")
AsgOps == <<"=", "*=", "**=", "/=", "%=", "+=", "-=", "<<=", ">>=", ">>>=", "&=", "^=", "|=">>
AsgName == ("=" :> "Assign") @@ ("*=" :> "Multiply") @@ ("**=" :> "Power") @@ ("/=" :> "Divide")
  @@ ("%=" :> "Modulus") @@ ("+=" :> "Add") @@ ("-=" :> "Sub") @@ ("<<=" :> "LeftShift")
  @@ (">>=" :> "RightShift") @@ (">>>=" :> "UnsignedRightShift") @@ ("&=" :> "BitwiseAnd")
  @@ ("^=" :> "BitwiseXOr") @@ ("|=" :> "BitwiseOr")
KindName == ("var" :> "Var") @@ ("let" :> "Let") @@ ("const" :> "Const")

Lit(sp, l) == [Literal |-> [span |-> sp, literal |-> l]]

(* AssignmentTargetType of an expression is simple. *)
RECURSIVE Simple(_)
Simple(e) ==
  CASE Is(e, "IdentRef") -> TRUE
    [] Is(e, "Member") -> TRUE
    [] Is(e, "Parenthesized") -> Simple(e.Parenthesized.expression)
    [] OTHER -> FALSE

RECURSIVE Unparen(_)
Unparen(e) == IF Is(e, "Parenthesized") THEN Unparen(e.Parenthesized.expression) ELSE e

IsIdentNamed(e, S) == Is(Unparen(e), "IdentRef") /\ Unparen(e).IdentRef.name \in S

Opt(v, F(_)) == IF v = Null THEN <<>> ELSE F(v)

(* Names bound by a binding pattern, in order, with repetitions. *)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

RECURSIVE Bound(_)
Bound(p) ==
  CASE Is(p, "Ident") -> << p.Ident.name >>
    [] Is(p, "Array") ->
         Flatten([i \in 1..Len(p.Array.elements) |->
             LET e == p.Array.elements[i] IN IF e = Null THEN <<>> ELSE Bound(e.pattern)])
         \o (IF p.Array.rest = Null THEN <<>> ELSE Bound(p.Array.rest))
    [] Is(p, "Object") ->
         Flatten([i \in 1..Len(p.Object.props) |->
             LET q == p.Object.props[i] IN
               IF Is(q, "Single") THEN << q.Single.ident.name >> ELSE Bound(q.Named.binding.pattern)])
         \o (IF p.Object.rest = Null THEN <<>> ELSE Bound(p.Object.rest))

ParamNames(ps) ==
  Flatten([i \in 1..Len(ps.bindings) |-> Bound(ps.bindings[i].pattern)])
    \o (IF ps.rest = Null THEN <<>> ELSE Bound(ps.rest))
(* Names of the plain identifier parameters only. *)
PlainNames(ps) ==
  Flatten([i \in 1..Len(ps.bindings) |->
     IF Is(ps.bindings[i].pattern, "Ident") THEN Bound(ps.bindings[i].pattern) ELSE <<>>])
    \o (IF ps.rest = Null THEN <<>> ELSE IF Is(ps.rest, "Ident") THEN Bound(ps.rest) ELSE <<>>)

HasDup(s) == Cardinality({s[i] : i \in DOMAIN s}) # Len(s)

SimpleParams(ps) ==
  /\ ps.rest = Null
  /\ \A i \in DOMAIN ps.bindings :
       Is(ps.bindings[i].pattern, "Ident") /\ ps.bindings[i].initializer = Null

HasUseStrict(dirs) == \E i \in DOMAIN dirs : dirs[i].value = "use strict"
=============================================================================
