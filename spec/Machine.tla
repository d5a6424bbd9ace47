------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* A pushdown machine over Grammar.  Its complete behaviours are exactly   *)
(* the programs of the language, each with the one syntax tree it denotes. *)
(*                                                                         *)
(* The state is one record m:                                              *)
(*   stk   the symbols still to be derived, head first                     *)
(*   need  the least number of tokens that stk can still derive            *)
(*   vs    the values (nodes, lists, marks) built so far, top last         *)
(*   pend  what is demanded of the next token: f, texts it must not have;  *)
(*         nonl, no line terminator before it; asi, a semicolon has been   *)
(*         left out, so a line terminator, `}` or the end must come next   *)
(*   out   the tokens so far: <<text, nl>> where nl is "F" (must be on the *)
(*         same line as the token before), "T" (must not) or "*" (either)  *)
(*   tags  the early errors committed so far                               *)
(*   cfg   number of the configuration                                      *)
(*                                                                         *)
(* Automatic semicolon insertion is the standard's: whenever a derivation  *)
(* stops although a token x could have continued it, x enters pend.f, and  *)
(* an inserted semicolon needs a line terminator before a token that could *)
(* not have continued, which is what "offending token" means.              *)
(*                                                                         *)
(* The same machine recognises: with Input set, only the tokens of Input   *)
(* can be emitted, in order, with line breaks where Input has them.        *)
(***************************************************************************)
EXTENDS Grammar, Integers, SequencesExt

CONSTANTS
  Configs    \* sequence of [goal, sigma, max, prefix, slots, skip] or, with "rec", [goal, input, skip]

VARIABLE m

(* -------------------------------------------------------- identifiers -- *)
Reserved == {"break", "case", "catch", "class", "const", "continue", "debugger", "default",
  "delete", "do", "else", "enum", "export", "extends", "false", "finally", "for", "function",
  "if", "import", "in", "instanceof", "new", "null", "return", "super", "switch", "this",
  "throw", "true", "try", "typeof", "var", "void", "while", "with"}
StrictReserved == {"implements", "interface", "let", "package", "private", "protected", "public", "static"}
Contextual == {"as", "async", "from", "get", "of", "set", "target", "await", "yield", "meta", "constructor"}
Plain == {"a", "b", "c", "f", "m", "x", "y", "foo", "$", "_", "i1", "eval", "arguments"}
Names == Plain \cup StrictReserved \cup Contextual
IdNames == Names \cup Reserved

(* "" when name may be an identifier in context c, "no" when not, and otherwise a tag. *)
IdStatus(name, c, role) ==
  CASE name = "yield" ->
         IF "Yq" \in c /\ "S" \notin c THEN "?yield-param"
         ELSE IF "Y" \in c THEN "no"
         ELSE IF "S" \in c THEN "no" ELSE ""
    [] name = "await" ->
         IF "A" \in c THEN "no"
         ELSE IF "Mod" \in c THEN "?module-await"
         ELSE IF "Aq" \in c THEN "?async-arrow-await" ELSE ""
    [] name \in StrictReserved ->
         IF "S" \in c THEN "no" ELSE IF name = "let" /\ role = "lex" THEN "?let-let" ELSE ""
    [] name \in {"eval", "arguments"} ->
         IF "S" \in c /\ role # "ref" THEN "?strict-binding" ELSE ""
    [] OTHER -> ""

(* ------------------------------------------------------------- budget -- *)
MinTab == [nt \in {"Script", "Module", "Prologue", "ItemsNoDir", "Items", "VarMore", "VarInit",
    "Else", "DoSemi", "Cases", "OptExpr", "ParamList", "ParamMore", "InitOpt", "ABElems", "ABMore",
    "OBProps", "OBMore", "ClsElems", "SetComma", "SeqTail", "SeqMore", "AssignTail", "CondTail",
    "BinTail", "CoTail", "ExpTail", "UpdTail", "CallTail", "OptTail", "MemTail", "ArgList",
    "ArgMore", "FnName", "Elems", "ElemMore", "Props", "PropMore", "AElems", "AElemMore", "AProps",
    "APropMore", "ImpSpecs", "ImpMore", "ExpSpecs", "ExpMore", "DefId"} |-> 0]
  @@ [nt \in {"Params", "PatNoId", "Body", "ClassTail", "UnaryOp", "AwaitE", "OptHead", "SuperProp",
    "NewNoArgs", "Args", "TplRest", "APat", "ModItem", "Decl", "Block"} |-> 2]
  @@ [nt \in {"Catch", "DefDecl"} |-> 3]
  @@ [nt \in {"ForHead", "ForRest"} |-> 4]
  @@ [nt \in {"ForOfHead", "ClsElem", "Method"} |-> 5]
Min1(s) ==
  CASE s[1] = "n" -> IF s[2] \in DOMAIN MinTab THEN MinTab[s[2]] ELSE 1
    [] s[1] \in {"t", "tok", "id", "idn"} -> 1
    [] OTHER -> 0
RECURSIVE MinLen(_)
MinLen(ss) == IF ss = <<>> THEN 0 ELSE Min1(Head(ss)) + MinLen(Tail(ss))

(* ----------------------------------------------------------- emission -- *)
Cfg(s) == TLCGet(1000000)[s.cfg]
Recognising == Mode = "rec"
Sigma(s) == Cfg(s).sigma
(* Configurations may leave out derivations with early errors. *)
TagOK(x, s) == x \notin Cfg(s).skip

Classes(x) ==
  CASE x \in {"`t`", "``", "`h${", "`${"} -> {x, "`"}
    [] x \in SeqSet(RegToks) -> {x, "/", "/="}
    [] x \in {"constructor", "'constructor'"} -> {x, "@ctor"}
    [] OTHER -> {x}

(* The line-terminator demand with which x can be the next token, or "no". *)
Nl(x, pend) ==
  IF Classes(x) \cap pend.f # {} THEN "no"
  ELSE LET needT == (pend.asi /\ x # "}") \/ (x \in {"++", "--"} /\ "!++" \in pend.f)
           needF == pend.nonl
       IN IF needT /\ needF THEN "no" ELSE IF needT THEN "T" ELSE IF needF THEN "F" ELSE "*"

NoPend == [f |-> {}, nonl |-> FALSE, asi |-> FALSE]

(* Whether a configuration allows x as its token i: frames (slots) list what each token may be. *)
Fits(i, x, s) ==
  LET c == Cfg(s) IN
  IF c.slots # <<>> THEN i <= Len(c.slots) /\ x \in c.slots[i]
  ELSE IF i <= Len(c.prefix) THEN c.prefix[i] = x ELSE x \in c.sigma

TokenOK(x, s) ==
  IF Recognising
  THEN LET i == Len(s.out) + 1
           inp == Cfg(s).input
           nl == Nl(x, s.pend)
       IN i <= Len(inp) /\ inp[i][1] = x /\ nl # "no" /\ (nl = "*" \/ i = 1 \/ inp[i][2] = nl)
  ELSE /\ Fits(Len(s.out) + 1, x, s)
       /\ Nl(x, s.pend) # "no"

Emit(s, x) == [s EXCEPT !.out = Append(@, <<x, Nl(x, s.pend)>>), !.pend = NoPend]

(* ---------------------------------------------------------- reduction -- *)
Pop(vs, k) == SubSeq(vs, 1, Len(vs) - k)

Dummy(e) == [span |-> <<e + 1, 0>>, name |-> ""]

DeclFn(sp, x, id, ps, body) ==
  [span |-> sp, asynchronous |-> x[2], generator |-> x[1], identifier |-> id, parameters |-> ps, body |-> body]

(* The node an action builds.  vs: the values, e: the index of the last token. *)
\* ---- lists
Act1 == {"list", "push", "one"}
Build1(a, x, vs, e) ==
  LET V(i) == vs[Len(vs) - i] IN
  CASE a = "list" -> <<>>
    [] a = "push" -> Append(V(1), V(0))
    [] a = "one" -> << V(0) >>

\* ---- literals
Act2 == {"strlit", "str", "num", "regexp", "null", "bool", "template", "array", "object", "elem", "elemspread", "propref", "propnamed", "propspread", "propmethod", "pnident", "pnstr", "pnnum", "pncomp", "ctorname", "tplno", "tplhead", "tplexpr", "tplstr", "tplend"}
Build2(a, x, vs, e) ==
  LET V(i) == vs[Len(vs) - i] IN
  CASE a = "strlit" -> StrTab[V(0)]
    [] a = "str" -> Lit(<<e, e>>, [String |-> V(0)])
    [] a = "num" -> Lit(<<e, e>>, [Number |-> [raw |-> V(0)]])
    [] a = "regexp" -> Lit(<<e, e>>, [Regexp |-> V(0)])
    [] a = "null" -> Lit(<<V(0), e>>, Unit("Null"))
    [] a = "bool" -> Lit(<<V(0), e>>, [Boolean |-> x[1]])
    [] a = "template" -> Lit(<<V(1), e>>, [Template |-> V(0)])
    [] a = "array" -> Lit(<<V(1), e>>, [Array |-> [elements |-> V(0)]])
    [] a = "object" -> Lit(<<V(1), e>>, [Object |-> [props |-> V(0)]])
    [] a = "elem" -> [Expr |-> V(0)]
    [] a = "elemspread" -> [Spread |-> V(0)]
    [] a = "propref" -> [IdentRef |-> V(0)]
    [] a = "propnamed" -> [Named |-> [span |-> <<V(2), e>>, name |-> V(1), value |-> V(0)]]
    [] a = "propspread" -> [Spread |-> V(0)]
    [] a = "propmethod" -> [Method |-> V(0)]
    [] a = "pnident" -> [Ident |-> V(0)]
    [] a = "pnstr" -> [String |-> V(0)]
    [] a = "pnnum" -> [Number |-> [raw |-> V(0)]]
    [] a = "pncomp" -> [Computed |-> V(0)]
    [] a = "ctorname" -> [Ident |-> [span |-> <<e, e>>, name |-> "constructor"]]
    [] a = "tplno" -> [parts |-> << [String |-> TplStr[V(0)]] >>]
    [] a = "tplhead" -> IF TplStr[V(0)] = "" THEN <<>> ELSE << [String |-> TplStr[V(0)]] >>
    [] a = "tplexpr" -> Append(V(1), [Expr |-> V(0)])
    [] a = "tplstr" -> IF TplStr[V(0)] = "" THEN V(1) ELSE Append(V(1), [String |-> TplStr[V(0)]])
    [] a = "tplend" -> [parts |-> V(0)]

\* ---- expressions
Act3 == {"identref", "this", "paren", "binary", "logical", "unary", "prefix", "postfix", "await", "yield", "conditional", "sequence", "assign", "assignpat", "arrowid", "arrowexpr", "arrowbody", "arrow", "member", "memberx", "superprop", "superpropx", "optmember", "optmemberx", "optcall", "args", "importargs", "arg", "argspread", "call", "callx", "tagged", "newargs", "newnone", "meta"}
Build3(a, x, vs, e) ==
  LET V(i) == vs[Len(vs) - i] IN
  CASE a = "identref" -> [IdentRef |-> V(0)]
    [] a = "this" -> [This |-> [span |-> <<V(0), e>>]]
    [] a = "paren" -> [Parenthesized |-> [span |-> <<V(1), e>>, expression |-> V(0)]]
    [] a = "binary" -> [Binary |-> [span |-> <<SpanOf(V(2))[1], e>>, operator |-> BinName[V(1)], left |-> V(2), right |-> V(0)]]
    [] a = "logical" -> [Logical |-> [span |-> <<SpanOf(V(2))[1], e>>, operator |-> LogName[V(1)], left |-> V(2), right |-> V(0)]]
    [] a = "unary" -> [Unary |-> [span |-> <<V(2), e>>, operator |-> UnName[V(1)], argument |-> V(0)]]
    [] a = "prefix" -> [Update |-> [span |-> <<V(2), e>>, operator |-> UpdName[V(1)], prefix |-> TRUE, argument |-> V(0)]]
    [] a = "postfix" -> [Update |-> [span |-> <<SpanOf(V(1))[1], e>>, operator |-> UpdName[V(0)], prefix |-> FALSE, argument |-> V(1)]]
    [] a = "await" -> [Await |-> [span |-> <<V(1), e>>, argument |-> V(0)]]
    [] a = "yield" -> [Yield |-> [span |-> <<V(1), e>>, argument |-> V(0), delegate |-> x[1]]]
    [] a = "conditional" -> [Conditional |-> [span |-> <<SpanOf(V(2))[1], e>>, condition |-> V(2), consequent |-> V(1), alternate |-> V(0)]]
    [] a = "sequence" -> [Sequence |-> [span |-> <<SpanOf(V(0)[1])[1], e>>, expr |-> V(0)]]
    [] a = "assign" -> [Assignment |-> [span |-> <<SpanOf(V(2))[1], e>>, operator |-> AsgName[V(1)], left |-> [Expr |-> V(2)], right |-> V(0)]]
    [] a = "assignpat" -> [Assignment |-> [span |-> <<SpanOf(V(1))[1], e>>, operator |-> "Assign", left |-> [AssignmentPattern |-> V(1)], right |-> V(0)]]
    [] a = "arrowid" -> [span |-> <<e, e>>, bindings |-> << [span |-> <<e, e>>, pattern |-> [Ident |-> V(0)], initializer |-> Null] >>, rest |-> Null]
    [] a = "arrowexpr" -> [Expr |-> V(0)]
    [] a = "arrowbody" -> [Body |-> V(0)]
    [] a = "arrow" -> [ArrowFunction |-> [span |-> <<V(2), e>>, asynchronous |-> x[1], binding_parameter |-> x[2], parameters |-> V(1), body |-> V(0)]]
    [] a = "member" -> [Member |-> [span |-> <<SpanOf(V(1))[1], e>>, object |-> [Expr |-> V(1)], property |-> [Ident |-> V(0)]]]
    [] a = "memberx" -> [Member |-> [span |-> <<SpanOf(V(1))[1], e>>, object |-> [Expr |-> V(1)], property |-> [Expr |-> V(0)]]]
    [] a = "superprop" -> [Member |-> [span |-> <<V(2), e>>, object |-> [Super |-> [span |-> <<V(2), V(2)>>]], property |-> [Ident |-> V(0)]]]
    [] a = "superpropx" -> [Member |-> [span |-> <<V(2), e>>, object |-> [Super |-> [span |-> <<V(2), V(2)>>]], property |-> [Expr |-> V(0)]]]
    [] a = "optmember" -> [OptionalMember |-> [span |-> <<SpanOf(V(1))[1], e>>, object |-> V(1), property |-> [Ident |-> V(0)], optional |-> x[1]]]
    [] a = "optmemberx" -> [OptionalMember |-> [span |-> <<SpanOf(V(1))[1], e>>, object |-> V(1), property |-> [Expr |-> V(0)], optional |-> x[1]]]
    [] a = "optcall" -> [OptionalCall |-> [span |-> <<SpanOf(V(1))[1], e>>, callee |-> V(1), arguments_span |-> V(0).span, arguments |-> V(0).list, optional |-> x[1]]]
    [] a = "args" -> [span |-> <<V(1), e>>, list |-> V(0)]
    [] a = "importargs" -> [span |-> <<V(1), e>>, list |-> << [Expr |-> V(0)] >>]
    [] a = "arg" -> [Expr |-> V(0)]
    [] a = "argspread" -> [Spread |-> V(0)]
    [] a = "call" -> [Call |-> [span |-> <<V(1), e>>, callee |-> x[1], arguments_span |-> V(0).span, arguments |-> V(0).list]]
    [] a = "callx" -> [Call |-> [span |-> <<SpanOf(V(1))[1], e>>, callee |-> [Expr |-> V(1)], arguments_span |-> V(0).span, arguments |-> V(0).list]]
    [] a = "tagged" -> [TaggedTemplate |-> [span |-> <<SpanOf(V(1))[1], e>>, callee |-> V(1), template |-> V(0)]]
    [] a = "newargs" -> [New |-> [span |-> <<V(2), e>>, callee |-> V(1), arguments_span |-> V(0).span, arguments |-> V(0).list]]
    [] a = "newnone" -> [New |-> [span |-> <<V(1), e>>, callee |-> V(0), arguments_span |-> Null, arguments |-> <<>>]]
    [] a = "meta" -> [MetaProperty |-> [span |-> <<V(0), e>>, meta |-> [span |-> <<V(0), V(0)>>, name |-> x[1]], property |-> [span |-> <<e, e>>, name |-> x[2]]]]

\* ---- functions and classes
Act4 == {"params", "body", "fdecl", "fexpr", "cdecl", "cexpr", "clsbody", "clselem", "method", "dummyid"}
Build4(a, x, vs, e) ==
  LET V(i) == vs[Len(vs) - i] IN
  CASE a = "params" -> [span |-> <<V(2), e>>, bindings |-> V(1), rest |-> V(0)]
    [] a = "body" -> [span |-> <<V(2), e>>, directives |-> V(1), statements |-> V(0)]
    [] a = "fdecl" -> [FunctionDecl |-> DeclFn(<<V(3), e>>, x, V(2), V(1), V(0))]
    [] a = "fexpr" -> [Function |-> DeclFn(<<V(3), e>>, x, V(2), V(1), V(0))]
    [] a = "cdecl" -> [ClassDecl |-> [span |-> <<V(3), e>>, identifier |-> V(2), super_class |-> V(1), body |-> V(0)]]
    [] a = "cexpr" -> [Class |-> [span |-> <<V(3), e>>, identifier |-> V(2), super_class |-> V(1), body |-> V(0)]]
    [] a = "clsbody" -> V(0)
    [] a = "clselem" -> [Method |-> V(0)]
    [] a = "method" -> [span |-> <<V(3), e>>, name |-> V(2), kind |-> x[1], parameters |-> V(1), body |-> V(0),
                        generator |-> x[2], asynchronous |-> x[3], is_static |-> V(4)]
    [] a = "dummyid" -> Dummy(e)

\* ---- patterns
Act5 == {"identpat", "arrbind", "objbind", "bindelem", "bindsingle", "bindnamed", "arrpat", "objpat", "patexpr", "patpat", "aelem", "asingle", "anamed"}
Build5(a, x, vs, e) ==
  LET V(i) == vs[Len(vs) - i] IN
  CASE a = "identpat" -> [Ident |-> V(0)]
    [] a = "arrbind" -> [Array |-> [span |-> <<V(2), e>>, elements |-> V(1), rest |-> V(0)]]
    [] a = "objbind" -> [Object |-> [span |-> <<V(2), e>>, props |-> V(1), rest |-> V(0)]]
    [] a = "bindelem" -> [span |-> <<V(2), e>>, pattern |-> V(1), initializer |-> V(0)]
    [] a = "bindsingle" -> [Single |-> [span |-> <<V(2), e>>, ident |-> V(1), initializer |-> V(0)]]
    [] a = "bindnamed" -> [Named |-> [span |-> <<V(2), e>>, property |-> V(1), binding |-> V(0)]]
    [] a = "arrpat" -> [Array |-> [span |-> <<V(2), e>>, elements |-> V(1), rest |-> V(0)]]
    [] a = "objpat" -> [Object |-> [span |-> <<V(2), e>>, props |-> V(1), rest |-> V(0)]]
    [] a = "patexpr" -> [Expr |-> V(0)]
    [] a = "patpat" -> [AssignmentPattern |-> V(0)]
    [] a = "aelem" -> [span |-> <<V(2), e>>, target |-> V(1), initializer |-> V(0)]
    [] a = "asingle" -> [Single |-> [span |-> <<V(2), e>>, ident |-> V(1), initializer |-> V(0)]]
    [] a = "anamed" -> [Named |-> [span |-> <<V(3), e>>, name |-> V(2), value |-> V(1), initializer |-> V(0)]]

\* ---- statements
Act6 == {"program", "exprstmt", "block", "blockstmt", "empty", "vardecl", "vardeclr", "if", "dowhile", "while", "forinitexpr", "forinitdecl", "for", "forin", "forof", "forleftexpr", "forleftpat", "forbinding", "continue", "break", "return", "with", "switch", "case", "labeled", "throw", "catch", "try", "debugger"}
Build6(a, x, vs, e) ==
  LET V(i) == vs[Len(vs) - i] IN
  CASE a = "program" -> [directives |-> V(1), body |-> V(0)]
    [] a = "exprstmt" -> [Expr |-> [span |-> <<V(1), e>>, expr |-> V(0)]]
    [] a = "block" -> [span |-> <<V(1), e>>, statements |-> V(0)]
    [] a = "blockstmt" -> [Block |-> V(0)]
    [] a = "empty" -> [Empty |-> [span |-> <<V(0), e>>]]
    [] a = "vardecl" -> [Variable |-> [span |-> <<V(1), e>>, kind |-> KindName[x[1]], declarations |-> V(0)]]
    [] a = "vardeclr" -> [span |-> <<V(2), e>>, pattern |-> V(1), initializer |-> V(0)]
    [] a = "if" -> [If |-> [span |-> <<V(3), e>>, condition |-> V(2), consequent |-> V(1), alternate |-> V(0)]]
    [] a = "dowhile" -> [DoWhile |-> [span |-> <<V(2), e>>, body |-> V(1), test |-> V(0)]]
    [] a = "while" -> [While |-> [span |-> <<V(2), e>>, test |-> V(1), body |-> V(0)]]
    [] a = "forinitexpr" -> [Expr |-> V(0)]
    [] a = "forinitdecl" -> [Declaration |-> [span |-> <<V(1), e>>, kind |-> KindName[x[1]], declarations |-> V(0)]]
    [] a = "for" -> [For |-> [span |-> <<V(4), e>>, init |-> V(3), test |-> V(2), update |-> V(1), body |-> V(0)]]
    [] a = "forin" -> [ForIn |-> [span |-> <<V(3), e>>, left |-> V(2), right |-> V(1), body |-> V(0)]]
    [] a = "forof" -> [ForOf |-> [span |-> <<V(3), e>>, left |-> V(2), right |-> V(1), body |-> V(0), asynchronous |-> x[1]]]
    [] a = "forleftexpr" -> [Expr |-> V(0)]
    [] a = "forleftpat" -> [AssignmentPattern |-> V(0)]
    [] a = "forbinding" -> [Declaration |-> [span |-> <<V(1), e>>, kind |-> KindName[x[1]], binding |-> V(0)]]
    [] a = "continue" -> [Continue |-> [span |-> <<V(1), e>>, label |-> V(0)]]
    [] a = "break" -> [Break |-> [span |-> <<V(1), e>>, label |-> V(0)]]
    [] a = "return" -> [Return |-> [span |-> <<V(1), e>>, argument |-> V(0)]]
    [] a = "with" -> [With |-> [span |-> <<V(2), e>>, object |-> V(1), body |-> V(0)]]
    [] a = "switch" -> [Switch |-> [span |-> <<V(2), e>>, discriminant |-> V(1), cases |-> V(0)]]
    [] a = "case" -> [span |-> <<V(2), e>>, test |-> V(1), consequent |-> V(0)]
    [] a = "labeled" -> [Labeled |-> [span |-> <<V(2), e>>, label |-> V(1), body |-> V(0)]]
    [] a = "throw" -> [Throw |-> [span |-> <<V(1), e>>, argument |-> V(0)]]
    [] a = "catch" -> [span |-> <<V(2), e>>, parameter |-> V(1), body |-> V(0)]
    [] a = "try" -> [Try |-> [span |-> <<V(3), e>>, block |-> V(2), handler |-> V(1), finalizer |-> V(0)]]
    [] a = "debugger" -> [Debugger |-> [span |-> <<V(0), e>>]]

\* ---- modules
Act7 == {"importbare", "import", "impspec", "expspec", "exportns", "exportnamed", "exportdecl", "exportdefdecl", "exportdefexpr"}
Build7(a, x, vs, e) ==
  LET V(i) == vs[Len(vs) - i] IN
  CASE a = "importbare" -> [ImportDecl |-> [span |-> <<V(1), e>>, default_binding |-> Null, namespace_binding |-> Null, named_imports |-> Null, from |-> V(0)]]
    [] a = "import" -> [ImportDecl |-> [span |-> <<V(4), e>>, default_binding |-> V(3), namespace_binding |-> V(2), named_imports |-> V(1), from |-> V(0)]]
    [] a = "impspec" -> [span |-> <<V(2), e>>, name |-> V(1), alias |-> V(0)]
    [] a = "expspec" -> IF V(0) = Null THEN [span |-> <<V(2), e>>, name |-> V(1), alias_of |-> Null]
                        ELSE [span |-> <<V(2), e>>, name |-> V(0), alias_of |-> V(1)]
    [] a = "exportns" -> [ExportDecl |-> [Namespace |-> [span |-> <<V(2), e>>, alias |-> V(1), from |-> V(0)]]]
    [] a = "exportnamed" -> [ExportDecl |-> [Named |-> [span |-> <<V(2), e>>, named_exports |-> V(1), from |-> V(0)]]]
    [] a = "exportdecl" -> [ExportDecl |-> [Decl |-> [span |-> <<V(1), e>>, decl |-> V(0)]]]
    [] a = "exportdefdecl" -> [ExportDecl |-> [DefaultDecl |-> [span |-> <<V(1), e>>, decl |-> V(0)]]]
    [] a = "exportdefexpr" -> [ExportDecl |-> [DefaultExpr |-> [span |-> <<V(1), e>>, expr |-> V(0)]]]

Build(a, x, vs, e) ==
  CASE a \in Act1 -> Build1(a, x, vs, e)
    [] a \in Act2 -> Build2(a, x, vs, e)
    [] a \in Act3 -> Build3(a, x, vs, e)
    [] a \in Act4 -> Build4(a, x, vs, e)
    [] a \in Act5 -> Build5(a, x, vs, e)
    [] a \in Act6 -> Build6(a, x, vs, e)
    [] a \in Act7 -> Build7(a, x, vs, e)

(* How many values an action consumes (those with zero only push). *)
Arity ==
  [a \in {"list", "dummyid", "ctorname"} |-> 0]
  @@ [a \in {"one", "strlit", "str", "num", "regexp", "null", "bool", "elem", "elemspread", "propref",
      "propspread", "propmethod", "pnident", "pnstr", "pnnum", "pncomp", "tplno", "tplhead", "tplend",
      "identref", "this", "sequence", "arrowid", "arrowexpr", "arrowbody", "arg", "argspread", "meta",
      "clsbody", "clselem", "identpat", "patexpr", "patpat", "blockstmt", "empty", "forinitexpr",
      "forleftexpr", "forleftpat", "debugger"} |-> 1]
  @@ [a \in {"push", "template", "array", "object", "tplexpr", "tplstr", "paren", "postfix", "await",
      "yield", "assignpat", "member", "memberx", "optmember", "optmemberx", "optcall", "args",
      "importargs", "call", "callx", "tagged", "newnone", "exprstmt", "block", "vardecl", "forinitdecl",
      "forbinding", "continue", "break", "return", "throw", "importbare", "exportdecl",
      "exportdefdecl", "exportdefexpr", "program"} |-> 2]
  @@ [a \in {"propnamed", "binary", "logical", "unary", "prefix", "conditional", "assign", "arrow",
      "superprop", "superpropx", "newargs", "params", "body", "arrbind", "objbind", "bindelem",
      "bindsingle", "bindnamed", "arrpat", "objpat", "aelem", "asingle", "vardeclr", "dowhile",
      "while", "with", "switch", "case", "labeled", "catch", "impspec", "expspec", "exportns",
      "exportnamed"} |-> 3]
  @@ [a \in {"fdecl", "fexpr", "cdecl", "cexpr", "anamed", "if", "forin", "forof", "try"} |-> 4]
  @@ [a \in {"method", "for", "import"} |-> 5]

StrictNames == StrictReserved \cup {"yield", "eval", "arguments"}

(* Early errors that depend on the whole function. *)
FnTags(id, ps, body, c, arrow) ==
  LET own == HasUseStrict(body.directives)
      strict == own \/ "S" \in c
      names == ParamNames(ps)
  IN (IF own /\ ~SimpleParams(ps) THEN {"?use-strict-params"} ELSE {})
     \cup (IF own /\ (SeqSet(names) \cup (IF id = Null THEN {} ELSE {id.name})) \cap StrictNames # {}
           THEN {"?retroactive-strict"} ELSE {})
     \cup (IF HasDup(names) /\ (arrow \/ strict \/ ~SimpleParams(ps)) THEN {"?dup-param"} ELSE {})

MethTags(kind, name, ps, body, c) ==
  LET own == HasUseStrict(body.directives) IN
  (IF own /\ ~SimpleParams(ps) THEN {"!use-strict-params"} ELSE {})
  \cup (IF own /\ SeqSet(ParamNames(ps)) \cap StrictNames # {} THEN {"?retroactive-strict"} ELSE {})
  \cup (IF kind = "Method" /\ HasDup(PlainNames(ps)) THEN {"!dup-param"}
        ELSE IF HasDup(ParamNames(ps)) THEN {"?dup-param"} ELSE {})

PNName(n) == IF Is(n, "Ident") THEN n.Ident.name ELSE IF Is(n, "String") THEN n.String.value ELSE ""

Tagging == {"fdecl", "fexpr", "arrow", "method", "clsbody", "exportnamed", "unary"}
NewTags(a, x, vs) ==
  LET V(i) == vs[Len(vs) - i] IN
  CASE a \in {"fdecl", "fexpr"} -> FnTags(V(2), V(1), V(0), x[3], FALSE)
    [] a = "arrow" ->
         IF Is(V(0), "Body") THEN FnTags(Null, V(1), V(0).Body, x[3], TRUE)
         ELSE IF HasDup(ParamNames(V(1))) THEN {"?dup-param"} ELSE {}
    [] a = "method" -> MethTags(x[1], V(2), V(1), V(0), x[4])
    [] a = "clsbody" ->
         LET els == V(0)
             ctors == {i \in DOMAIN els : /\ ~els[i].Method.is_static
                                          /\ PNName(els[i].Method.name) = "constructor"}
             special == \E i \in ctors : \/ els[i].Method.kind # "Method"
                                         \/ els[i].Method.generator \/ els[i].Method.asynchronous
         IN (IF Cardinality(ctors) > 1 THEN {"?dup-constructor"} ELSE {})
            \cup (IF special THEN {"?special-constructor"} ELSE {})
    [] a = "exportnamed" ->
         IF ~x[1] /\ \E i \in DOMAIN V(1) :
              LET q == V(1)[i] n == (IF q.alias_of = Null THEN q.name ELSE q.alias_of).name
              IN n \in Reserved \cup StrictReserved \cup {"yield", "await"}
         THEN {"?export-reserved"} ELSE {}
    [] a = "unary" ->
         IF "S" \in x[1] /\ V(1) = "delete" /\ Is(Unparen(V(0)), "IdentRef") THEN {"!strict-delete"} ELSE {}
    [] OTHER -> {}

Reduce(s, a, x) ==
  [s EXCEPT !.vs = Append(Pop(@, Arity[a]), Build(a, x, @, Len(s.out))),
            !.tags = IF a \in Tagging THEN @ \cup NewTags(a, x, s.vs) ELSE @]

(* ------------------------------------------------------------- guards -- *)
(* The guarded state, as a sequence of zero or one states. *)
Guard(s, k, c) ==
  LET v == s.vs[Len(s.vs)] IN
  CASE k = "target" ->
         IF ~Simple(v) THEN <<>>
         ELSE IF "S" \in c /\ IsIdentNamed(v, {"eval", "arguments"})
              THEN << [s EXCEPT !.tags = @ \cup {"!strict-assign"}] >> ELSE << s >>
    [] k = "patlit" ->
         IF s.out[SpanOf(v)[1]][1] \in {"{", "["}
         THEN << [s EXCEPT !.tags = @ \cup {"?literal-member-target"}] >> ELSE << s >>
    [] k = "notdirective" ->
         IF Is(v, "Expr") /\ Is(v.Expr.expr, "Literal")
            /\ s.out[v.Expr.span[1]][1] \in SeqSet(StrToks)
         THEN <<>> ELSE << s >>
    [] k = "asyncof" ->
         IF Is(v, "Expr") /\ Is(v.Expr, "IdentRef") /\ v.Expr.IdentRef.name = "async"
         THEN << [s EXCEPT !.tags = @ \cup {"?async-of"}] >> ELSE << s >>
    [] k = "impname" ->
         IF v.name \in Reserved \cup StrictReserved \cup {"yield", "await"}
         THEN << [s EXCEPT !.tags = @ \cup {"?import-reserved"}] >>
         ELSE IF v.name \in {"eval", "arguments"} THEN << [s EXCEPT !.tags = @ \cup {"?strict-binding"}] >>
         ELSE << s >>

(* ------------------------------------------------------------ stepping -- *)
Deterministic(sym) == sym[1] \in {"m", "p", "r", "g", "f", "nf", "nonl", "tag"}

(* One deterministic symbol: the sequence of zero or one states after it. *)
Do(s) ==
  LET sym == Head(s.stk) r == [s EXCEPT !.stk = Tail(@)] k == sym[1] IN
  CASE k = "m" -> << [r EXCEPT !.vs = Append(@, Len(s.out) + 1)] >>
    [] k = "p" -> << [r EXCEPT !.vs = Append(@, sym[2])] >>
    [] k = "r" -> << Reduce(r, sym[2], sym[3]) >>
    [] k = "g" -> Guard(r, sym[2], sym[3])
    [] k = "f" -> << [r EXCEPT !.pend.f = @ \cup sym[2]] >>
    [] k = "nf" -> IF sym[2] \in s.pend.f THEN <<>> ELSE << r >>
    [] k = "nonl" -> IF s.pend.asi THEN <<>> ELSE << [r EXCEPT !.pend.nonl = TRUE] >>
    [] k = "tag" -> IF ~TagOK(sym[2], s) THEN <<>> ELSE << [r EXCEPT !.tags = @ \cup {sym[2]}] >>

(* Room left once the rest of the derivation has had its minimum.  When recognising, a little more
   than the input: how far a text can be read is wanted even if it is cut off there. *)
Room(s) == (IF Recognising THEN Len(Cfg(s).input) + Cfg(s).slack ELSE Cfg(s).max) - Len(s.out) - s.need

(* What the next token can be at most. *)
Next(s) ==
  LET i == Len(s.out) + 1 c == Cfg(s) IN
  IF Recognising THEN (IF i <= Len(c.input) THEN {c.input[i][1]} ELSE {})
  ELSE IF c.slots # <<>> THEN (IF i <= Len(c.slots) THEN c.slots[i] ELSE {})
  ELSE IF i <= Len(c.prefix) THEN {c.prefix[i]} ELSE c.sigma
(* Whether a token has to follow. *)
MustGoOn(s) ==
  LET c == Cfg(s) n == Len(s.out) IN
  IF Recognising THEN n < Len(c.input) ELSE IF c.slots # <<>> THEN n < Len(c.slots) ELSE n < Len(c.prefix)

(* The first tokens of nonterminals that are never empty and start in few ways. *)
NameStart == IdNames
PropStart == IdNames \cup SeqSet(StrToks) \cup SeqSet(NumToks) \cup {"["}
ExprStart == Names \cup SeqSet(StrToks) \cup SeqSet(NumToks) \cup SeqSet(RegToks) \cup SeqSet(TplNo) \cup SeqSet(TplHead)
  \cup SeqSet(UnOps) \cup SeqSet(UpdOps) \cup {"(", "[", "{", "function", "class", "this", "null", "true", "false", "new", "super", "import"}
FirstTab ==
     [nt \in {"Params", "Args"} |-> {"("}]
  @@ [nt \in {"APat", "PatNoId"} |-> {"[", "{"}]
  @@ [nt \in {"Block", "Body"} |-> {"{"}]
  @@ [nt \in {"Pat", "BElem", "BindElem", "VarDecl", "VarDecls"} |-> Names \cup {"[", "{"}]
  @@ [nt \in {"OBProp", "AProp"} |-> PropStart]
  @@ [nt \in {"PropName"} |-> PropStart]
  @@ [nt \in {"Method"} |-> PropStart \cup {"*"}] @@ [nt \in {"Prop"} |-> PropStart \cup {"*", "..."}]
  @@ [nt \in {"UnaryOp"} |-> SeqSet(UnOps)] @@ [nt \in {"AwaitE"} |-> {"await"}] @@ [nt \in {"Yield"} |-> {"yield"}]
  @@ [nt \in {"ClassTail"} |-> {"{", "extends"}] @@ [nt \in {"OptHead"} |-> {"?."}] @@ [nt \in {"NewNoArgs"} |-> {"new"}]
  @@ [nt \in {"Template"} |-> SeqSet(TplNo) \cup SeqSet(TplHead)]
  @@ [nt \in {"ModItem"} |-> {"import", "export"}] @@ [nt \in {"Decl", "DefDecl"} |-> {"function", "async", "class", "let", "const"}]
  @@ [nt \in {"ImpSpec", "ExpSpec"} |-> IdNames] @@ [nt \in {"ImpString"} |-> SeqSet(StrToks)] @@ [nt \in {"Catch"} |-> {"catch"}]
  @@ [nt \in {"Expr", "Assign", "Cond", "Bin", "Exp", "Unary", "Update", "LHS", "Member", "Callee", "Primary", "AElem", "ATarget"} |-> ExprStart]

(* Could this right-hand side start here?  Looks at its first token only, and at what is forbidden. *)
RECURSIVE CanStart(_, _)
CanStart(syms, s) ==
  IF syms = <<>> THEN TRUE
  ELSE LET h == Head(syms) IN
    CASE h[1] = "t" -> TokenOK(h[2], s)
      [] h[1] = "tok" -> \E i \in DOMAIN h[2] : TokenOK(h[2][i], s)
      [] h[1] = "tag" -> TagOK(h[2], s) /\ CanStart(Tail(syms), s)
      [] h[1] \in {"m", "p", "r", "g"} -> CanStart(Tail(syms), s)
      [] h[1] = "f" -> LET q == [s EXCEPT !.pend.f = @ \cup h[2]] IN
                       /\ MustGoOn(s) => \E x \in Next(s) : Nl(x, q.pend) # "no"
                       /\ CanStart(Tail(syms), q)
      [] h[1] = "n" -> h[2] \in DOMAIN FirstTab => \E x \in Next(s) : x \in FirstTab[h[2]]
      [] OTHER -> TRUE

(* Identifiers (from S) that the next token may be. *)
Words(s, S) ==
  LET i == Len(s.out) + 1 IN
  {n \in (IF Recognising THEN (IF i <= Len(Cfg(s).input) THEN {Cfg(s).input[i][1]} ELSE {})
          ELSE IF Cfg(s).slots # <<>> THEN (IF i <= Len(Cfg(s).slots) THEN Cfg(s).slots[i] ELSE {})
          ELSE IF i <= Len(Cfg(s).prefix) THEN {Cfg(s).prefix[i]} ELSE Sigma(s)) \cap S : TokenOK(n, s)}
IdChoices(s, c, role) == {n \in Words(s, Names) : IdStatus(n, c, role) # "no"}

EmitId(r, n, st) ==
  LET q == Emit(r, n) e == Len(q.out) IN
  [q EXCEPT !.vs = Append(@, [span |-> <<e, e>>, name |-> n]),
            !.tags = @ \cup (IF st = "" THEN {} ELSE {st})
                       \cup (IF n = "let" /\ "@let" \in r.pend.f THEN {"?let"} ELSE {})]

ASISemi(r) == IF TokenOK(";", r) THEN << Emit(r, ";") >> ELSE <<>>
ASINone(r) == IF r.pend.nonl THEN <<>> ELSE << [r EXCEPT !.pend.asi = TRUE, !.pend.f = @ \cup {";"}] >>

(* The choices at the first symbol, as a sequence (states of different shape cannot be in one set). *)
Options(s) ==
  LET sym == Head(s.stk) r == [s EXCEPT !.stk = Tail(@), !.need = @ - Min1(sym)] k == sym[1] IN
  CASE k = "t" -> IF TokenOK(sym[2], r) THEN << sym[2] >> ELSE <<>>
    [] k = "tok" -> SelectSeq(sym[2], LAMBDA x : TokenOK(x, r))
    [] k = "id" -> SetToSeq(IdChoices(r, sym[2], sym[3]))
    [] k = "idn" -> SetToSeq(Words(r, IdNames))
    [] k = "asi" -> (IF ASISemi(r) = <<>> THEN <<>> ELSE <<";">>) \o (IF ASINone(r) = <<>> THEN <<>> ELSE <<"">>)
    [] k = "n" ->
         LET room == Room(r) IN
         SelectSeq(Alts(sym[2], sym[3], sym[4]), LAMBDA a : CanStart(a, s) /\ MinLen(a) <= room)

(* The state after choosing o. *)
Take(s, o) ==
  LET sym == Head(s.stk) r == [s EXCEPT !.stk = Tail(@), !.need = @ - Min1(sym)] k == sym[1] IN
  CASE k = "t" -> Emit(r, o)
    [] k = "tok" -> LET q == Emit(r, o) IN [q EXCEPT !.vs = Append(@, o)]
    [] k = "id" -> EmitId(r, o, IdStatus(o, sym[2], sym[3]))
    [] k = "idn" -> EmitId(r, o, "")
    [] k = "asi" -> IF o = ";" THEN ASISemi(r)[1] ELSE ASINone(r)[1]
    [] k = "n" -> [r EXCEPT !.stk = o \o @, !.need = @ + MinLen(o)]

(* The state once all that can happen in one way only has happened (or much of it: states that are
   left may go on in one way; and when recognising each token is a step of its own, as how far a text
   can be read is wanted).  Zero or one states, and whether that is all. *)
Forced(q) ==
  IF q[2] THEN q
  ELSE LET s == q[1][1] IN
    IF s.stk = <<>> THEN <<q[1], TRUE>>
    ELSE IF Deterministic(Head(s.stk)) THEN LET d == Do(s) IN <<d, d = <<>> >>
    ELSE IF Recognising THEN <<q[1], TRUE>>
    ELSE LET os == Options(s) IN
      IF os = <<>> THEN <<os, TRUE>> ELSE IF Len(os) = 1 THEN << <<Take(s, os[1])>>, FALSE>> ELSE <<q[1], TRUE>>
Steps == [i \in 1..8 |-> i]
Run(s) == FoldLeft(LAMBDA q, i : Forced(q), << <<s>>, FALSE >>, Steps)[1]

Complete(s) ==
  /\ s.stk = <<>>
  /\ Recognising => Len(s.out) = Len(Cfg(s).input)
  /\ ~Recognising => Cfg(s).slots = <<>> \/ Len(s.out) = Len(Cfg(s).slots)

Start(i) ==
  LET g == TLCGet(1000000)[i].goal IN
  [stk |-> << IF g = "Module" THEN N("Module", {"In", "Mod", "Top", "S"}) ELSE N("Script", {"In"}) >>,
   need |-> 0, vs |-> <<>>, pend |-> NoPend, out |-> <<>>, tags |-> {}, cfg |-> i]

(* TLC evaluates a constant anew at every use, what it keeps in a register only once.  The comparison
   puts all sets in their normal form before the workers share them. *)
ASSUME TLCSet(1000000, Configs) /\ TLCGet(1000000) = TLCGet(1000000)

MInit == \E i \in DOMAIN TLCGet(1000000) : m = Start(i)

Ways(s) == IF Deterministic(Head(s.stk)) THEN << "" >> ELSE Options(s)
Chosen(s, o) == IF Deterministic(Head(s.stk)) THEN Run(s) ELSE Run(Take(s, o))
(* One way at random, another one when that leads nowhere. *)
RECURSIVE Try(_, _)
Try(os, D) ==
  \E i \in {RandomElement(D)} :
    LET d == Chosen(m, os[i]) IN
    IF d # <<>> THEN m' = d[1] ELSE D # {i} /\ Try(os, D \ {i})
MNext ==
  /\ m.stk # <<>>
  /\ LET os == Ways(m) IN
       IF Mode = "sim" THEN os # <<>> /\ Try(os, DOMAIN os)
       ELSE \E i \in DOMAIN os : LET d == Chosen(m, os[i]) IN d # <<>> /\ m' = d[1]

(* ---------------------------------------------------------- properties -- *)
(* A complete derivation has used up its marks: one value is left. *)
OneValue == m.stk = <<>> => Len(m.vs) = 1
=============================================================================
