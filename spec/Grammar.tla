------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The syntactic grammar of ECMAScript 2021 (without class fields, private *)
(* names, optional-assignment operators, BigInt and Annex B syntax, which  *)
(* the implementation does not claim) as alternatives of stack symbols.    *)
(*                                                                         *)
(* Alts(nt, c, p) is the sequence of right-hand sides of nonterminal nt in *)
(* context c (a set of flags, the grammar parameters of the standard) and  *)
(* with parameter p.  Symbols are tuples:                                  *)
(*   <<"n", nt, c, p>>   nonterminal                                       *)
(*   <<"t", x>>          the token x                                       *)
(*   <<"tok", xs>>       any token of the sequence xs; its text is pushed  *)
(*   <<"id", c, role>>   an identifier; an Ident node is pushed            *)
(*   <<"idn">>           any identifier name; an Ident node is pushed      *)
(*   <<"m">>             push the index of the next token                  *)
(*   <<"p", v>>          push v                                            *)
(*   <<"r", a, x>>       reduce: build a node from the top of the values   *)
(*   <<"g", k, c>>       guard or early-error rule on the top value        *)
(*   <<"f", xs>>         the next token is not in xs                       *)
(*   <<"nf", x>>         fail when x is among the forbidden               *)
(*   <<"nonl">>          no line terminator before the next token          *)
(*   <<"asi">>           a semicolon, written or inserted                  *)
(*   <<"tag", x>>        attach x to the sentence                          *)
(*                                                                         *)
(* Context flags: In, Y (Yield), A (Await), R (Return), S (strict),        *)
(* Mod (module goal), Top (top level of a module), M (super property),     *)
(* SC (super call), NT (new.target), P (inside formal parameters),         *)
(* Yq (parameters of a generator method), K (computed key of a class).     *)
(*                                                                         *)
(* Tags: "%x" the sentence is touched by a pinned deviation;                *)
(* "!x" the sentence violates early error x and has to be rejected;  *)
(* "?x" it violates an early error the implementation does not claim.      *)
(***************************************************************************)
EXTENDS Ast

(* The snapshot tests of the implementation pin down three deviations from  *)
(* the standard. With Frozen they are described as they are, and sentences  *)
(* they touch carry a tag "%x"; without it this is the standard's grammar.  *)
CONSTANT Frozen
(* Random behaviours take some alternatives more often than others: those stand in their sequence   *)
(* several times.  Otherwise once is enough.                                                         *)
CONSTANT Mode   \* "gen" exhaustive, "sim" random, "rec" recognition
Often(k, alt) == IF Mode = "sim" THEN [i \in 1..k |-> alt] ELSE << alt >>

N(nt, c) == <<"n", nt, c, <<>>>>
NP(nt, c, p) == <<"n", nt, c, p>>
T(x) == <<"t", x>>
TK(xs) == <<"tok", xs>>
ID(c, role) == <<"id", c, role>>
IDN == <<"idn">>
M == <<"m">>
PU(v) == <<"p", v>>
R(a) == <<"r", a, <<>>>>
RX(a, x) == <<"r", a, x>>
G(k, c) == <<"g", k, c>>
F(xs) == <<"f", xs>>
NF(x) == <<"nf", x>>
NONL == <<"nonl">>
ASI == <<"asi">>
TAG(x) == <<"tag", x>>

In(c) == c \cup {"In"}
NoIn(c) == c \ {"In"}
Inner(c) == c \ {"Top"}

(* Context of parameters and body of a function that is not a method. *)
FnCtx(c, gen, async) ==
  (c \cap {"S", "Mod"}) \cup {"In", "NT"} \cup (IF gen THEN {"Y"} ELSE {})
    \cup (IF async THEN {"A"} ELSE {})
(* ... of a method, with super call allowed when sc. *)
MethCtx(c, gen, async, sc) ==
  FnCtx(c, gen, async) \cup {"M"} \cup (IF sc THEN {"SC"} ELSE {})
(* Body of an arrow function. *)
ArrowCtx(c, async) ==
  (c \ {"Y", "A", "R", "P", "Yq"}) \cup (IF async THEN {"A"} ELSE {})

BodyC(c) == (c \ {"P", "Yq", "K", "Top"}) \cup {"R", "In"}
ParC(c) == (c \ {"R", "Top", "K"}) \cup {"In", "P"}
KeyC(c) == In(c) \cup {"K"}

LevelTab == [a \in 1..11 |-> [b \in 0..10 |-> UNION {{BinOps[i][j] : j \in DOMAIN BinOps[i]} : i \in a..b}]]
LevelOps(a, b) == LevelTab[a][b]
AllBin == LevelOps(1, 10) \cup {"**", "??"}
ChainStart == {"(", "[", ".", "?.", "`"}
AsgSet == {AsgOps[i] : i \in DOMAIN AsgOps}
(* What can follow a string literal within the same expression statement. *)
StrCont == AllBin \cup ChainStart \cup {"?", ",", "!++"}

Sel(b, s) == IF b THEN s ELSE <<>>

(* A sequence of alternatives, one for each x in xs. *)
ForEach(xs, A(_)) == [i \in 1..Len(xs) |-> A(xs[i])]

Guarded(flag, c, tag, syms) == IF flag \in c THEN syms ELSE <<TAG(tag)>> \o syms

FnTail(c) == << NP("Params", ParC(c), <<>>), NP("Body", BodyC(c), <<>>) >>

(* Methods that are neither generators nor asynchronous. *)
PlainGen(c) == Frozen /\ "Y" \in c
PlainAsync(c) == Frozen /\ "A" \in c
PlainCtx(c, sc) == MethCtx(c, PlainGen(c), PlainAsync(c), sc)
PlainTag(c) == IF PlainGen(c) \/ PlainAsync(c) THEN <<TAG("%method-context")>> ELSE <<>>
(* Parameters of a generator method: read as outside of a generator. *)
GenParC(c) == (ParC(c) \ (IF Frozen THEN {"Y"} ELSE {})) \cup {"Yq"}
PlainTail(c, sc) ==
  PlainTag(c) \o << NP("Params", ParC(PlainCtx(c, sc) \ {"Y"}), <<>>), NP("Body", BodyC(PlainCtx(c, sc)), <<>>) >>

BinAlts(c, min, max) ==
  LET lo == min hi == max IN
  << <<F(LevelOps(lo, hi) \cup (IF lo = 1 /\ hi >= 3 THEN {"??"} ELSE {}))>> >>
  \o [i \in 1..(IF hi >= lo THEN hi - lo + 1 ELSE 0) |->
       LET l == lo + i - 1
           ops == IF l = 7 /\ "In" \notin c THEN SubSeq(BinOps[7], 1, 5) ELSE BinOps[l]
       IN << TK(ops), NP("Bin", c, <<l + 1>>), R(IF l <= 2 THEN "logical" ELSE "binary"),
             NP("BinTail", c, <<lo, l>>) >>]
  \o Sel(lo = 1 /\ hi >= 3,
       << << TK(<<"??">>), NP("Bin", c, <<3>>), R("logical"), N("CoTail", c) >> >>)

StrItem(c, s) ==
  LET c2 == IF StrTab[s].value = "use strict" THEN c \cup {"S"} ELSE c IN
  << TK(<<s>>), R("strlit"), F(StrCont), ASI, R("push"), N("Prologue", c2) >>

\* Statements that may start an expression statement
ExprStmtForbid == {"{", "function", "class", "@asyncfn", "@let"}

\* ---- programs
NT1 == {"Script", "Module", "Prologue", "ItemsNoDir", "Items", "Item"}
Alts1(nt, c, p) ==
  CASE nt = "Script" -> << <<R("list"), N("Prologue", c), R("program")>> >>
    [] nt = "Module" -> << <<R("list"), N("Prologue", c), R("program")>> >>
    [] nt = "Prologue" ->
         Often(12, <<R("list"), N("ItemsNoDir", c)>>) \o ForEach(StrToks, LAMBDA s : StrItem(c, s))
    [] nt = "ItemsNoDir" ->
         << <<>> >> \o Often(4, <<N("Item", c), G("notdirective", c), R("push"), N("Items", c)>>)
    [] nt = "Items" -> << <<>> >> \o Often(2, <<N("Item", c), R("push"), N("Items", c)>>)
    [] nt = "Item" ->
         Often(2, <<N("Stmt", Inner(c))>>) \o <<
            <<N("Decl", Inner(c))>> >>
         \o Sel("Mod" \in c,
              << IF "Top" \in c THEN <<N("ModItem", c)>> ELSE <<TAG("?nested-module-item"), N("ModItem", c)>> >>)

\* ---- declarations
NT2 == {"Decl", "VarDecls", "VarMore", "VarDecl", "VarInit"}
Alts2(nt, c, p) ==
  CASE nt = "Decl" ->
         << <<M, T("function"), ID(c, "bind")>> \o FnTail(FnCtx(c, FALSE, FALSE)) \o <<RX("fdecl", <<FALSE, FALSE, c>>)>>,
            <<M, T("function"), T("*"), ID(c, "bind")>> \o FnTail(FnCtx(c, TRUE, FALSE)) \o <<RX("fdecl", <<TRUE, FALSE, c>>)>>,
            <<M, T("async"), NONL, T("function"), ID(c, "bind")>> \o FnTail(FnCtx(c, FALSE, TRUE)) \o <<RX("fdecl", <<FALSE, TRUE, c>>)>>,
            <<M, T("async"), NONL, T("function"), T("*"), ID(c, "bind")>> \o FnTail(FnCtx(c, TRUE, TRUE)) \o <<RX("fdecl", <<TRUE, TRUE, c>>)>>,
            <<M, T("class"), ID(c \cup {"S"}, "bind"), N("ClassTail", c \cup {"S"}), R("cdecl")>>,
            <<M, T("let"), R("list"), NP("VarDecls", In(c), <<"let">>), ASI, RX("vardecl", <<"let">>)>>,
            <<M, T("const"), R("list"), NP("VarDecls", In(c), <<"const">>), ASI, RX("vardecl", <<"const">>)>> >>
    [] nt = "VarDecls" -> << <<NP("VarDecl", c, p), R("push"), NP("VarMore", c, p)>> >>
    [] nt = "VarMore" -> << <<F({","})>>, <<T(","), NP("VarDecls", c, p)>> >>
    [] nt = "VarDecl" ->
         << <<M, ID(c, IF p[1] = "var" THEN "bind" ELSE "lex"), R("identpat"), NP("VarInit", c, p), R("vardeclr")>>,
            <<M, NP("PatNoId", c, p), T("="), N("Assign", c), R("vardeclr")>> >>
    [] nt = "VarInit" ->
         << (IF p[1] = "const" THEN <<TAG("?const-init")>> ELSE <<>>) \o <<F({"="}), PU(Null)>>,
            <<T("="), N("Assign", c)>> >>

\* ---- statements
NT3 == {"Stmt", "Block", "Else", "DoSemi", "Cases", "Catch", "ForHead", "ForOfHead", "ForRest", "OptExpr", "ForLeft"}
Alts3(nt, c, p) ==
  CASE nt = "Stmt" ->
         Often(2, <<M, F(ExprStmtForbid), N("Expr", In(c)), ASI, R("exprstmt")>>) \o <<
            <<N("Block", c), R("blockstmt")>>,
            <<M, T("var"), R("list"), NP("VarDecls", In(c), <<"var">>), ASI, RX("vardecl", <<"var">>)>>,
            <<M, T(";"), R("empty")>>,
            <<M, T("if"), T("("), N("Expr", In(c)), T(")"), N("Stmt", c), N("Else", c), R("if")>>,
            <<M, T("do"), N("Stmt", c), T("while"), T("("), N("Expr", In(c)), T(")"), N("DoSemi", c), R("dowhile")>>,
            <<M, T("while"), T("("), N("Expr", In(c)), T(")"), N("Stmt", c), R("while")>>,
            <<M, T("for"), T("("), N("ForHead", c)>>,
            <<M, T("continue"), PU(Null), ASI, R("continue")>>,
            <<M, T("continue"), NONL, ID(c, "ref"), ASI, R("continue")>>,
            <<M, T("break"), PU(Null), ASI, R("break")>>,
            <<M, T("break"), NONL, ID(c, "ref"), ASI, R("break")>>,
            Guarded("R", c, "!return", <<M, T("return"), PU(Null), ASI, R("return")>>),
            Guarded("R", c, "!return", <<M, T("return"), NONL, N("Expr", In(c)), ASI, R("return")>>),
            (IF "S" \in c THEN <<TAG("!strict-with")>> ELSE <<>>)
               \o <<M, T("with"), T("("), N("Expr", In(c)), T(")"), N("Stmt", c), R("with")>>,
            <<M, T("switch"), T("("), N("Expr", In(c)), T(")"), T("{"), R("list"), NP("Cases", c, <<FALSE>>), T("}"), R("switch")>>,
            <<M, ID(c, "ref"), T(":"), N("Stmt", c), R("labeled")>>,
            <<M, T("throw"), NONL, N("Expr", In(c)), ASI, R("throw")>>,
            <<M, T("try"), N("Block", c), N("Catch", c), T("finally"), N("Block", c), R("try")>>,
            <<M, T("try"), N("Block", c), N("Catch", c), PU(Null), R("try")>>,
            <<M, T("try"), N("Block", c), PU(Null), T("finally"), N("Block", c), R("try")>>,
            <<M, T("debugger"), ASI, R("debugger")>> >>
         \o Sel("A" \in c,
            << <<M, T("for"), T("await"), T("("), NP("ForOfHead", c, <<TRUE>>)>> >>)
    [] nt = "Block" -> << <<M, T("{"), R("list"), N("Items", c), T("}"), R("block")>> >>
    [] nt = "Else" -> << <<F({"else"}), PU(Null)>>, <<T("else"), N("Stmt", c)>> >>
    [] nt = "DoSemi" -> << <<F({";"})>>, <<T(";")>> >>
    [] nt = "Cases" ->
         << <<>>,
            <<M, T("case"), N("Expr", In(c)), T(":"), R("list"), N("Items", c), R("case"), R("push"), NP("Cases", c, p)>>,
            (IF p[1] THEN <<TAG("?dup-default")>> ELSE <<>>) \o
            <<M, T("default"), PU(Null), T(":"), R("list"), N("Items", c), R("case"), R("push"), NP("Cases", c, <<TRUE>>)>> >>
    [] nt = "Catch" ->
         << <<M, T("catch"), PU(Null), N("Block", c), R("catch")>>,
            <<M, T("catch"), T("("), NP("Pat", In(c), <<"lex">>), T(")"), N("Block", c), R("catch")>> >>
    [] nt = "ForHead" ->
         << <<PU(Null), N("ForRest", c)>>,
            <<F({"@let"}), N("Expr", NoIn(c)), R("forinitexpr"), N("ForRest", c)>>,
            <<M, T("var"), R("list"), NP("VarDecls", NoIn(c), <<"var">>), RX("forinitdecl", <<"var">>), N("ForRest", c)>>,
            <<M, T("let"), R("list"), NP("VarDecls", NoIn(c), <<"let">>), RX("forinitdecl", <<"let">>), N("ForRest", c)>>,
            <<M, T("const"), R("list"), NP("VarDecls", NoIn(c), <<"const">>), RX("forinitdecl", <<"const">>), N("ForRest", c)>>,
            <<N("ForLeft", c), T("in"), N("Expr", In(c)), T(")"), N("Stmt", c), R("forin")>>,
            <<NP("ForOfHead", c, <<FALSE>>)>> >>
    [] nt = "ForOfHead" ->
         << <<N("ForLeft", c), G("asyncof", c), T("of"), N("Assign", In(c)), T(")"), N("Stmt", c), RX("forof", p)>> >>
    [] nt = "ForRest" ->
         << <<T(";"), N("OptExpr", In(c)), T(";"), N("OptExpr", In(c)), T(")"), N("Stmt", c), R("for")>> >>
    [] nt = "OptExpr" -> << <<PU(Null)>>, <<N("Expr", c)>> >>
    [] nt = "ForLeft" ->
         << <<F({"@let"}), N("LHS", c), G("target", c), G("patlit", c), R("forleftexpr")>>,
            <<N("APat", c), R("forleftpat")>>,
            <<M, T("var"), NP("Pat", In(c), <<"var">>), RX("forbinding", <<"var">>)>>,
            <<M, T("let"), NP("Pat", In(c), <<"lex">>), RX("forbinding", <<"let">>)>>,
            <<M, T("const"), NP("Pat", In(c), <<"lex">>), RX("forbinding", <<"const">>)>> >>

\* ---- functions, classes
NT4 == {"Params", "ParamList", "ParamMore", "BindElem", "InitOpt", "Pat", "PatNoId", "ABElems", "ABMore", "BElem", "OBProps", "OBMore", "OBProp", "Body", "ClassTail", "ClsElems", "ClsElem", "CtorName", "Method", "SetComma", "PropName"}
Alts4(nt, c, p) ==
  CASE nt = "Params" -> << <<M, T("("), R("list"), N("ParamList", c), T(")"), R("params")>> >>
    [] nt = "ParamList" ->
         << <<PU(Null)>>, <<N("BindElem", c), R("push"), N("ParamMore", c)>>, <<T("..."), NP("Pat", c, <<"bind">>)>> >>
    [] nt = "ParamMore" -> << <<PU(Null)>>, <<T(","), N("ParamList", c)>> >>
    [] nt = "BindElem" -> << <<M, NP("Pat", c, <<"bind">>), N("InitOpt", c), R("bindelem")>> >>
    [] nt = "InitOpt" -> << <<F({"="}), PU(Null)>>, <<T("="), N("Assign", In(c))>> >>
    [] nt = "Pat" -> << <<ID(c, p[1]), R("identpat")>>, <<NP("PatNoId", c, p)>> >>
    [] nt = "PatNoId" ->
         << <<M, T("["), R("list"), NP("ABElems", c, p), T("]"), R("arrbind")>>,
            <<M, T("{"), R("list"), NP("OBProps", c, p), T("}"), R("objbind")>> >>
    [] nt = "ABElems" ->
         << <<PU(Null)>>, <<T(","), PU(Null), R("push"), NP("ABElems", c, p)>>,
            <<NP("BElem", c, p), R("push"), NP("ABMore", c, p)>>,
            <<T("..."), NP("Pat", c, p)>> >>
    [] nt = "ABMore" -> << <<PU(Null)>>, <<T(","), NP("ABElems", c, p)>> >>
    [] nt = "BElem" -> << <<M, NP("Pat", c, p), N("InitOpt", c), R("bindelem")>> >>
    [] nt = "OBProps" ->
         << <<PU(Null)>>, <<NP("OBProp", c, p), R("push"), NP("OBMore", c, p)>>,
            <<T("..."), ID(c, p[1]), R("identpat")>>,
            <<TAG("?object-rest-pattern"), T("..."), NP("PatNoId", c, p)>> >>
    [] nt = "OBMore" -> << <<PU(Null)>>, <<T(","), NP("OBProps", c, p)>> >>
    [] nt = "OBProp" ->
         << <<M, ID(c, p[1]), F({":", "("}), N("InitOpt", c), R("bindsingle")>>,
            <<M, N("PropName", c), T(":"), NP("BElem", c, p), R("bindnamed")>> >>
    [] nt = "Body" -> << <<M, T("{"), R("list"), N("Prologue", c), T("}"), R("body")>> >>
    [] nt = "ClassTail" ->
         << <<PU(Null), T("{"), R("list"), NP("ClsElems", c, <<FALSE>>), T("}"), R("clsbody")>>,
            <<T("extends"), N("LHS", c), T("{"), R("list"), NP("ClsElems", c, <<TRUE>>), T("}"), R("clsbody")>> >>
    [] nt = "ClsElems" ->
         << <<>>, <<T(";"), NP("ClsElems", c, p)>>,
            <<NP("ClsElem", c, p), R("push"), NP("ClsElems", c, p)>> >>
    [] nt = "ClsElem" ->
         << <<PU(FALSE), NP("Method", c, <<FALSE>>), R("clselem")>>,
            <<T("static"), PU(TRUE), NP("Method", c, <<TRUE>>), R("clselem")>>,
            <<PU(FALSE), M, N("CtorName", c)>> \o PlainTail(c, p[1])
               \o << RX("method", <<"Method", PlainGen(c), PlainAsync(c), c>>), R("clselem")>> >>
    [] nt = "CtorName" ->
         << <<T("constructor"), R("ctorname")>>, <<TK(<<"'constructor'">>), R("strlit"), R("pnstr")>> >>
    \* p[1]: the method may be called constructor (object literal)
    [] nt = "Method" ->
         << <<M>> \o (IF p[1] THEN <<>> ELSE <<F({"@ctor"})>>) \o <<N("PropName", KeyC(c))>>
               \o PlainTail(c, FALSE) \o <<RX("method", <<"Method", PlainGen(c), PlainAsync(c), c>>)>>,
            <<M, T("*"), N("PropName", KeyC(c)), NP("Params", GenParC(MethCtx(c, TRUE, FALSE, FALSE)), <<>>),
              NP("Body", BodyC(MethCtx(c, TRUE, FALSE, FALSE)), <<>>), RX("method", <<"Method", TRUE, FALSE, c>>)>>,
            <<M, T("async"), NONL, N("PropName", KeyC(c))>> \o FnTail(MethCtx(c, FALSE, TRUE, FALSE))
               \o <<RX("method", <<"Method", FALSE, TRUE, c>>)>>,
            <<M, T("async"), NONL, T("*"), N("PropName", KeyC(c)), NP("Params", GenParC(MethCtx(c, TRUE, TRUE, FALSE)), <<>>),
              NP("Body", BodyC(MethCtx(c, TRUE, TRUE, FALSE)), <<>>), RX("method", <<"Method", TRUE, TRUE, c>>)>>,
            <<M, T("get"), N("PropName", KeyC(c)), M, T("("), R("list"), PU(Null), T(")"), R("params")>>
              \o PlainTag(c) \o <<NP("Body", BodyC(PlainCtx(c, FALSE)), <<>>), RX("method", <<"Get", PlainGen(c), PlainAsync(c), c>>)>>,
            <<M, T("set"), N("PropName", KeyC(c)), M, T("("), R("list"), N("BindElem", ParC(PlainCtx(c, FALSE) \ {"Y"})), R("push"), N("SetComma", c), T(")"), R("params")>>
              \o PlainTag(c) \o <<NP("Body", BodyC(PlainCtx(c, FALSE)), <<>>), RX("method", <<"Set", PlainGen(c), PlainAsync(c), c>>)>> >>
    \* a trailing comma in the parameter list of a setter is not in the grammar, and accepted
    [] nt = "SetComma" -> << <<PU(Null)>>, <<TAG("?setter-comma"), T(","), PU(Null)>> >>
    [] nt = "PropName" ->
         Often(2, <<IDN, R("pnident")>>) \o <<
            <<TK(StrToks), R("strlit"), R("pnstr")>>,
            <<TK(NumToks), R("pnnum")>>,
            <<T("["), N("Assign", In(c)), T("]"), R("pncomp")>> >>

\* ---- expressions
NT5 == {"Expr", "SeqTail", "SeqMore", "Assign", "AssignTail", "Yield", "ArrowBody", "Cond", "CondTail"}
Alts5(nt, c, p) ==
  CASE nt = "Expr" -> << <<N("Assign", c), N("SeqTail", c)>> >>
    [] nt = "SeqTail" -> Often(2, <<F({","})>>) \o << <<T(","), R("one"), N("Assign", c), R("push"), N("SeqMore", c)>> >>
    [] nt = "SeqMore" -> << <<F({","}), R("sequence")>>, <<T(","), N("Assign", c), R("push"), N("SeqMore", c)>> >>
    [] nt = "Assign" ->
         Often(3, <<N("Cond", c), N("AssignTail", c)>>) \o <<
            <<M, ID(c, "bind"), R("arrowid"), NONL, T("=>"), NP("ArrowBody", ArrowCtx(c, FALSE), <<>>), RX("arrow", <<FALSE, TRUE, c>>)>>,
            <<M, N("Params", In(c) \cup {"P"}), NONL, T("=>"), NP("ArrowBody", ArrowCtx(c, FALSE), <<>>), RX("arrow", <<FALSE, FALSE, c>>)>>,
            <<M, T("async"), NONL, ID(c \cup {"Aq"}, "bind"), R("arrowid"), NONL, T("=>"), NP("ArrowBody", ArrowCtx(c, TRUE), <<>>), RX("arrow", <<TRUE, TRUE, c>>)>>,
            <<M, T("async"), NONL, N("Params", In(c) \cup {"P", "Aq"}), NONL, T("=>"), NP("ArrowBody", ArrowCtx(c, TRUE), <<>>), RX("arrow", <<TRUE, FALSE, c>>)>>,
            <<N("APat", c), T("="), N("Assign", c), R("assignpat")>> >>
         \o Sel("Y" \in c, << (IF "P" \in c THEN <<TAG("?yield-in-params")>> ELSE <<>>) \o << N("Yield", c) >> >>)
    [] nt = "AssignTail" ->
         Often(2, <<F(AsgSet)>>) \o <<
            <<G("target", c), TK(AsgOps), N("Assign", c), R("assign")>> >>
    [] nt = "Yield" ->
         << <<M, T("yield"), PU(Null), RX("yield", <<FALSE>>)>>,
            <<M, T("yield"), NONL, N("Assign", c), RX("yield", <<FALSE>>)>>,
            <<M, T("yield"), NONL, T("*"), N("Assign", c), RX("yield", <<TRUE>>)>> >>
    [] nt = "ArrowBody" ->
         << <<F({"{"}), N("Assign", c), R("arrowexpr")>>, <<N("Body", BodyC(c)), R("arrowbody")>> >>
    [] nt = "Cond" -> << <<NP("Bin", c, <<1>>), N("CondTail", c)>> >>
    [] nt = "CondTail" ->
         Often(2, <<F({"?"})>>) \o <<
            <<T("?"), N("Assign", In(c)), T(":"), N("Assign", c), R("conditional")>> >>

\* ---- binary and unary expressions
NT6 == {"Bin", "BinTail", "CoTail", "Exp", "ExpTail", "UnaryOp", "AwaitE", "Unary", "Update", "UpdTail"}
Alts6(nt, c, p) ==
  CASE nt = "Bin" -> << <<N("Exp", c), NP("BinTail", c, <<p[1], 10>>)>> >>
    [] nt = "BinTail" -> BinAlts(c, p[1], p[2])
    [] nt = "CoTail" -> << <<F({"??"})>>, <<TK(<<"??">>), NP("Bin", c, <<3>>), R("logical"), N("CoTail", c)>> >>
    [] nt = "Exp" ->
         Often(2, <<N("Update", c), NP("ExpTail", c, <<FALSE>>)>>) \o <<
            <<N("UnaryOp", c)>> >>
         \o Sel("A" \in c, << <<N("AwaitE", c)>> >>)
    [] nt = "ExpTail" -> IF Frozen
         THEN Often(2, <<F({"**"})>>) \o <<
            <<TK(<<"**">>), N("Update", c), R("binary")>> \o (IF p[1] THEN <<TAG("%exp-assoc")>> ELSE <<>>) \o <<NP("ExpTail", c, <<TRUE>>)>>,
                 <<TK(<<"**">>), N("UnaryOp", c), R("binary")>> \o (IF p[1] THEN <<TAG("%exp-assoc")>> ELSE <<>>) >>
              \o Sel("A" \in c, << <<TK(<<"**">>), N("AwaitE", c), R("binary")>> \o (IF p[1] THEN <<TAG("%exp-assoc")>> ELSE <<>>) >>)
         ELSE << <<F({"**"})>>, <<F({"**"})>>, <<TK(<<"**">>), N("Exp", c), R("binary")>> >>
    [] nt = "UnaryOp" -> << <<M, TK(UnOps), N("Unary", c), RX("unary", <<c>>)>> >>
    [] nt = "AwaitE" ->
         << (IF "P" \in c THEN <<TAG("?await-in-params")>> ELSE <<>>) \o <<M, T("await"), N("Unary", c), R("await")>> >>
    [] nt = "Unary" ->
         << <<N("Update", c)>>, <<N("UnaryOp", c)>> >> \o Sel("A" \in c, << <<N("AwaitE", c)>> >>)
    [] nt = "Update" ->
         Often(2, <<N("LHS", c), N("UpdTail", c)>>) \o <<
            <<M, TK(UpdOps), N("Unary", c), G("target", c), R("prefix")>> >>
    [] nt = "UpdTail" -> Often(2, <<F({"!++"})>>) \o <<
            <<G("target", c), NONL, TK(UpdOps), R("postfix")>> >>

\* ---- left-hand-side expressions
NT7 == {"LHS", "CallTail", "OptHead", "OptTail", "Member", "SuperProp", "Callee", "MemTail", "NewNoArgs", "Args", "ArgList", "ArgMore"}
Alts7(nt, c, p) ==
  CASE nt = "LHS" ->
         Often(2, <<N("Member", c), N("CallTail", c)>>) \o <<
            <<N("NewNoArgs", c)>>,
            Guarded("SC", c, IF "K" \in c THEN "?super-key" ELSE "!super-call",
                    <<M, T("super"), N("Args", c), RX("call", <<Unit("Super")>>), N("CallTail", c)>>),
            <<M, T("import"), M, T("("), N("Assign", In(c)), T(")"), R("importargs"), RX("call", <<Unit("Import")>>), N("CallTail", c)>> >>
    [] nt = "CallTail" ->
         Often(2, <<F(ChainStart)>>) \o <<
            <<T("."), IDN, R("member"), N("CallTail", c)>>,
            <<T("["), N("Expr", In(c)), T("]"), R("memberx"), N("CallTail", c)>>,
            <<N("Args", c), R("callx"), N("CallTail", c)>>,
            <<N("Template", c), R("tagged"), N("CallTail", c)>>,
            <<N("OptHead", c)>> >>
    [] nt = "OptHead" ->
         << <<T("?."), IDN, RX("optmember", <<TRUE>>), N("OptTail", c)>>,
            <<T("?."), T("["), N("Expr", In(c)), T("]"), RX("optmemberx", <<TRUE>>), N("OptTail", c)>>,
            <<T("?."), N("Args", c), RX("optcall", <<TRUE>>), N("OptTail", c)>> >>
    [] nt = "OptTail" ->
         << <<F(ChainStart)>>,
            <<T("."), IDN, RX("optmember", <<FALSE>>), N("OptTail", c)>>,
            <<T("["), N("Expr", In(c)), T("]"), RX("optmemberx", <<FALSE>>), N("OptTail", c)>>,
            <<N("Args", c), RX("optcall", <<FALSE>>), N("OptTail", c)>>,
            <<N("OptHead", c)>> >>
    \* a member base and everything that may follow before the first call
    [] nt = "Member" ->
         Often(3, <<N("Primary", c)>>) \o <<
            <<M, T("new"), N("Callee", c), N("Args", c), R("newargs")>>,
            Guarded("M", c, IF "K" \in c THEN "?super-key" ELSE "!super-prop", <<M, T("super"), M, N("SuperProp", c)>>),
            Guarded("NT", c, "?new-target", <<M, T("new"), T("."), T("target"), RX("meta", <<"new", "target">>)>>),
            Guarded("Mod", c, "?import-meta", <<M, T("import"), T("."), T("meta"), RX("meta", <<"import", "meta">>)>>) >>
    [] nt = "SuperProp" ->
         << <<T("."), IDN, R("superprop")>>, <<T("["), N("Expr", In(c)), T("]"), R("superpropx")>> >>
    [] nt = "Callee" -> << <<N("Member", c), N("MemTail", c)>> >>
    [] nt = "MemTail" ->
         Often(2, <<F({"[", ".", "`"})>>) \o <<
            <<T("."), IDN, R("member"), N("MemTail", c)>>,
            <<T("["), N("Expr", In(c)), T("]"), R("memberx"), N("MemTail", c)>>,
            <<N("Template", c), R("tagged"), N("MemTail", c)>> >>
    [] nt = "NewNoArgs" ->
         << <<M, T("new"), N("Callee", c), F(ChainStart), R("newnone")>>,
            <<M, T("new"), N("NewNoArgs", c), F(ChainStart), R("newnone")>> >>
    [] nt = "Args" -> << <<M, T("("), R("list"), N("ArgList", c), T(")"), R("args")>> >>
    [] nt = "ArgList" ->
         << <<>>, <<N("Assign", In(c)), R("arg"), R("push"), N("ArgMore", c)>>,
            <<T("..."), N("Assign", In(c)), R("argspread"), R("push"), N("ArgMore", c)>> >>
    [] nt = "ArgMore" -> << <<>>, <<T(","), N("ArgList", c)>> >>

\* ---- primary expressions
NT8 == {"Template", "TplRest", "Primary", "FnName", "Elems", "ElemMore", "Props", "PropMore", "Prop"}
Alts8(nt, c, p) ==
  CASE nt = "Template" ->
         << <<TK(TplNo), R("tplno")>>, <<TK(TplHead), R("tplhead"), N("TplRest", c)>> >>
    [] nt = "TplRest" ->
         << <<N("Expr", In(c)), R("tplexpr"), TK(TplTail), R("tplstr"), R("tplend")>>,
            <<N("Expr", In(c)), R("tplexpr"), TK(TplMid), R("tplstr"), N("TplRest", c)>> >>
    [] nt = "Primary" ->
         Often(3, <<ID(c, "ref"), R("identref")>>) \o <<
            <<TK(NumToks), R("num")>>,
            <<TK(StrToks), R("strlit"), R("str")>>,
            <<M, T("this"), R("this")>>,
            <<M, T("null"), R("null")>>,
            <<M, T("true"), RX("bool", <<TRUE>>)>>, <<M, T("false"), RX("bool", <<FALSE>>)>>,
            <<TK(RegToks), R("regexp")>>,
            <<M, N("Template", c), R("template")>>,
            <<M, T("("), N("Expr", In(c)), T(")"), R("paren")>>,
            <<M, T("["), R("list"), N("Elems", In(c)), T("]"), R("array")>>,
            <<M, T("{"), R("list"), N("Props", In(c)), T("}"), R("object")>>,
            <<M, T("function"), NP("FnName", FnCtx(c, FALSE, FALSE), <<>>)>> \o FnTail(FnCtx(c, FALSE, FALSE)) \o <<RX("fexpr", <<FALSE, FALSE, c>>)>>,
            <<M, T("function"), T("*"), NP("FnName", FnCtx(c, TRUE, FALSE), <<>>)>> \o FnTail(FnCtx(c, TRUE, FALSE)) \o <<RX("fexpr", <<TRUE, FALSE, c>>)>>,
            <<NF("@asyncfn"), M, T("async"), NONL, T("function"), NP("FnName", FnCtx(c, FALSE, TRUE), <<>>)>> \o FnTail(FnCtx(c, FALSE, TRUE)) \o <<RX("fexpr", <<FALSE, TRUE, c>>)>>,
            <<NF("@asyncfn"), M, T("async"), NONL, T("function"), T("*"), NP("FnName", FnCtx(c, TRUE, TRUE), <<>>)>> \o FnTail(FnCtx(c, TRUE, TRUE)) \o <<RX("fexpr", <<TRUE, TRUE, c>>)>>,
            <<M, T("class"), PU(Null), N("ClassTail", c \cup {"S"}), R("cexpr")>>,
            <<M, T("class"), ID(c \cup {"S"}, "bind"), N("ClassTail", c \cup {"S"}), R("cexpr")>> >>
    [] nt = "FnName" -> << <<PU(Null)>>, <<ID(c, "bind")>> >>
    [] nt = "Elems" ->
         << <<>>, <<T(","), PU(Unit("Elision")), R("push"), N("Elems", c)>>,
            <<N("Assign", c), R("elem"), R("push"), N("ElemMore", c)>>,
            <<N("Assign", c), R("elem"), R("push"), N("ElemMore", c)>>,
            <<T("..."), N("Assign", c), R("elemspread"), R("push"), N("ElemMore", c)>> >>
    [] nt = "ElemMore" -> << <<>>, <<T(","), N("Elems", c)>> >>
    [] nt = "Props" -> << <<>>, <<N("Prop", c), R("push"), N("PropMore", c)>> >>
    [] nt = "PropMore" -> << <<>>, <<T(","), N("Props", c)>> >>
    [] nt = "Prop" ->
         << <<ID(c, "ref"), F({"=", ":", "("}), R("propref")>>,
            <<M, N("PropName", c), T(":"), N("Assign", c), R("propnamed")>>,
            <<T("..."), N("Assign", c), R("propspread")>>,
            <<PU(FALSE), NP("Method", c, <<TRUE>>), R("propmethod")>> >>

\* ---- assignment patterns
NT9 == {"APat", "AElems", "AElemMore", "AElem", "ATarget", "AProps", "APropMore", "AProp"}
Alts9(nt, c, p) ==
  CASE nt = "APat" ->
         << <<M, T("["), R("list"), N("AElems", c), T("]"), R("arrpat")>>,
            <<M, T("{"), R("list"), N("AProps", c), T("}"), R("objpat")>> >>
    [] nt = "AElems" ->
         << <<PU(Null)>>, <<T(","), PU(Null), R("push"), N("AElems", c)>>,
            <<N("AElem", c), R("push"), N("AElemMore", c)>>,
            <<T("..."), N("ATarget", c)>> >>
    [] nt = "AElemMore" ->
         << <<PU(Null)>>,
            IF Frozen THEN <<T(","), TAG("%array-pattern-comma"), PU(Null), R("push"), N("AElems", c)>>
            ELSE <<T(","), N("AElems", c)>> >>
    [] nt = "AElem" -> << <<M, N("ATarget", c), N("InitOpt", c), R("aelem")>> >>
    [] nt = "ATarget" ->
         << <<N("LHS", c), G("target", c), G("patlit", c), R("patexpr")>>, <<N("APat", c), R("patpat")>> >>
    [] nt = "AProps" ->
         << <<PU(Null)>>, <<N("AProp", c), R("push"), N("APropMore", c)>>,
            <<T("..."), N("LHS", c), G("target", c), G("patlit", c), R("patexpr")>>,
            <<TAG("?object-rest-pattern"), T("..."), N("APat", c), R("patpat")>> >>
    [] nt = "APropMore" -> << <<PU(Null)>>, <<T(","), N("AProps", c)>> >>
    [] nt = "AProp" ->
         << <<M, ID(c, "asg"), F({":", "("}), N("InitOpt", c), R("asingle")>>,
            <<M, N("PropName", c), T(":"), N("ATarget", c), N("InitOpt", c), R("anamed")>> >>

\* ---- module items
NT10 == {"ModItem", "ImpString", "ImpClause", "ImpSpecs", "ImpMore", "ImpSpec", "ExpSpecs", "ExpMore", "ExpSpec", "DefDecl", "DefId"}
Alts10(nt, c, p) ==
  CASE nt = "ModItem" ->
         << <<M, T("import"), N("ImpString", c), ASI, R("importbare")>>,
            <<M, T("import"), N("ImpClause", c), T("from"), N("ImpString", c), ASI, R("import")>>,
            <<M, T("export"), T("*"), PU(Null), T("from"), N("ImpString", c), ASI, R("exportns")>>,
            <<M, T("export"), T("*"), T("as"), IDN, T("from"), N("ImpString", c), ASI, R("exportns")>>,
            <<M, T("export"), T("{"), R("list"), N("ExpSpecs", c), T("}"), T("from"), N("ImpString", c), ASI, RX("exportnamed", <<TRUE>>)>>,
            <<M, T("export"), T("{"), R("list"), N("ExpSpecs", c), T("}"), F({"from"}), PU(Null), ASI, RX("exportnamed", <<FALSE>>)>>,
            <<M, T("export"), M, T("var"), R("list"), NP("VarDecls", In(c), <<"var">>), ASI, RX("vardecl", <<"var">>), R("exportdecl")>>,
            <<M, T("export"), N("Decl", Inner(c)), R("exportdecl")>>,
            <<M, T("export"), T("default"), N("DefDecl", Inner(c)), R("exportdefdecl")>>,
            <<M, T("export"), T("default"), F({"function", "class", "@asyncfn"}), N("Assign", In(Inner(c))), ASI, R("exportdefexpr")>> >>
    [] nt = "ImpString" -> << <<TK(StrToks), R("strlit")>> >>
    [] nt = "ImpClause" ->
         << <<ID(c, "bind"), PU(Null), PU(Null)>>,
            <<PU(Null), T("*"), T("as"), ID(c, "bind"), PU(Null)>>,
            <<PU(Null), PU(Null), T("{"), R("list"), N("ImpSpecs", c), T("}")>>,
            <<ID(c, "bind"), T(","), T("*"), T("as"), ID(c, "bind"), PU(Null)>>,
            <<ID(c, "bind"), PU(Null), T(","), T("{"), R("list"), N("ImpSpecs", c), T("}")>> >>
    [] nt = "ImpSpecs" -> << <<>>, <<N("ImpSpec", c), R("push"), N("ImpMore", c)>> >>
    [] nt = "ImpMore" -> << <<>>, <<T(","), N("ImpSpecs", c)>> >>
    [] nt = "ImpSpec" ->
         << <<M, IDN, G("impname", c), PU(Null), R("impspec")>>,
            <<M, IDN, T("as"), ID(c, "bind"), R("impspec")>> >>
    [] nt = "ExpSpecs" -> << <<>>, <<N("ExpSpec", c), R("push"), N("ExpMore", c)>> >>
    [] nt = "ExpMore" -> << <<>>, <<T(","), N("ExpSpecs", c)>> >>
    [] nt = "ExpSpec" -> << <<M, IDN, PU(Null), R("expspec")>>, <<M, IDN, T("as"), IDN, R("expspec")>> >>
    [] nt = "DefDecl" ->
         << <<M, T("function"), N("DefId", c)>> \o FnTail(FnCtx(c, FALSE, FALSE)) \o <<RX("fdecl", <<FALSE, FALSE, c>>)>>,
            <<M, T("function"), T("*"), N("DefId", c)>> \o FnTail(FnCtx(c, TRUE, FALSE)) \o <<RX("fdecl", <<TRUE, FALSE, c>>)>>,
            <<M, T("async"), NONL, T("function"), N("DefId", c)>> \o FnTail(FnCtx(c, FALSE, TRUE)) \o <<RX("fdecl", <<FALSE, TRUE, c>>)>>,
            <<M, T("async"), NONL, T("function"), T("*"), N("DefId", c)>> \o FnTail(FnCtx(c, TRUE, TRUE)) \o <<RX("fdecl", <<TRUE, TRUE, c>>)>>,
            <<M, T("class"), N("DefId", c \cup {"S"}), N("ClassTail", c \cup {"S"}), R("cdecl")>> >>
    [] nt = "DefId" -> << <<R("dummyid")>>, <<ID(c, "bind")>> >>

Alts(nt, c, p) ==
  CASE nt \in NT1 -> Alts1(nt, c, p)
    [] nt \in NT2 -> Alts2(nt, c, p)
    [] nt \in NT3 -> Alts3(nt, c, p)
    [] nt \in NT4 -> Alts4(nt, c, p)
    [] nt \in NT5 -> Alts5(nt, c, p)
    [] nt \in NT6 -> Alts6(nt, c, p)
    [] nt \in NT7 -> Alts7(nt, c, p)
    [] nt \in NT8 -> Alts8(nt, c, p)
    [] nt \in NT9 -> Alts9(nt, c, p)
    [] nt \in NT10 -> Alts10(nt, c, p)
=============================================================================
