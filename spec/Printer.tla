------------------------------ MODULE Printer ------------------------------
(***************************************************************************)
(* The text that stands for a syntax tree, as a sequence of tokens.  The   *)
(* readable format writes exactly these tokens; the minified format may    *)
(* leave out a semicolon before a closing brace or at the end.             *)
(*                                                                         *)
(* Property (checked with TLC for generated trees): the grammar reads      *)
(* Text(v) back as v; so whatever a printer does that delivers these       *)
(* tokens is correct.                                                      *)
(***************************************************************************)
EXTENDS Shape

Inv(f, y) == CHOOSE x \in DOMAIN f : f[x] = y

RECURSIVE Sep(_)
(* Items (sequences of tokens) separated by commas. *)
Sep(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<",">> \o Sep(Tail(ss))

StrText(l) == l.delimiter \o l.value \o l.delimiter

RECURSIVE E(_), S(_), Pat(_), PorE(_), PName(_), Lit0(_), Elem(_), Method(_), Tmpl(_, _), Params(_), Holes(_)

Init0(v) == IF v = Null THEN <<>> ELSE <<"=">> \o E(v)
Name(v) == IF v = Null \/ v.name = "" THEN <<>> ELSE <<v.name>>
Maybe(w, v) == IF v = Null THEN <<>> ELSE <<w>> \o E(v)
Stmts(ss) == Flatten([i \in DOMAIN ss |-> S(ss[i])])
Dirs(ds) == Flatten([i \in DOMAIN ds |-> <<StrText(ds[i]), ";">>])
Body(b) == <<"{">> \o Dirs(b.directives) \o Stmts(b.statements) \o <<"}">>
Block(b) == <<"{">> \o Stmts(b.statements) \o <<"}">>
Args(as) == <<"(">> \o Sep([i \in DOMAIN as |-> IF Is(as[i], "Spread") THEN <<"...">> \o E(as[i].Spread) ELSE E(as[i].Expr)]) \o <<")">>
Flag(b, t) == IF b THEN <<t>> ELSE <<>>

Func(f) == Flag(f.asynchronous, "async") \o <<"function">> \o Flag(f.generator, "*") \o Name(f.identifier)
             \o Params(f.parameters) \o Body(f.body)
Class(c) == <<"class">> \o Name(c.identifier) \o Maybe("extends", c.super_class)
             \o <<"{">> \o Flatten([i \in DOMAIN c.body |-> Method(c.body[i].Method)]) \o <<"}">>

(* Elements of which some are absent: an absent one is only its comma. *)
Holes(es) ==
  IF es = <<>> THEN <<>>
  ELSE IF es[1] = Null THEN <<",">> \o Holes(Tail(es))
  ELSE es[1].t \o (IF Len(es) > 1 THEN <<",">> ELSE <<>>) \o Holes(Tail(es))
Some(es, F(_)) == [i \in DOMAIN es |-> IF es[i] = Null THEN Null ELSE [t |-> F(es[i])]]
HolesRest(es, F(_), r, G(_)) ==
  Holes(Some(es, F)) \o (IF r = Null THEN <<>> ELSE (IF es # <<>> /\ es[Len(es)] # Null THEN <<",">> ELSE <<>>) \o <<"...">> \o G(r))
WithRest(ss, r, G(_)) == Sep(ss \o (IF r = Null THEN <<>> ELSE << <<"...">> \o G(r) >>))

BindElem(b) == Pat(b.pattern) \o Init0(b.initializer)
Params(p) == <<"(">> \o WithRest([i \in DOMAIN p.bindings |-> BindElem(p.bindings[i])], p.rest, Pat) \o <<")">>
Pat(p) ==
  CASE Is(p, "Ident") -> <<p.Ident.name>>
    [] Is(p, "Array") -> <<"[">> \o HolesRest(p.Array.elements, BindElem, p.Array.rest, Pat) \o <<"]">>
    [] Is(p, "Object") -> <<"{">> \o WithRest([i \in DOMAIN p.Object.props |->
          LET q == p.Object.props[i] IN
          IF Is(q, "Single") THEN <<q.Single.ident.name>> \o Init0(q.Single.initializer)
          ELSE PName(q.Named.property) \o <<":">> \o BindElem(q.Named.binding)], p.Object.rest, Pat) \o <<"}">>

AsgElem(a) == PorE(a.target) \o Init0(a.initializer)
AsgPat(p) ==
  IF Is(p, "Array") THEN <<"[">> \o HolesRest(p.Array.elements, AsgElem, p.Array.rest, PorE) \o <<"]">>
  ELSE <<"{">> \o WithRest([i \in DOMAIN p.Object.props |->
          LET q == p.Object.props[i] IN
          IF Is(q, "Single") THEN <<q.Single.ident.name>> \o Init0(q.Single.initializer)
          ELSE PName(q.Named.name) \o <<":">> \o PorE(q.Named.value) \o Init0(q.Named.initializer)], p.Object.rest, PorE) \o <<"}">>
PorE(p) == IF Is(p, "Expr") THEN E(p.Expr) ELSE AsgPat(p.AssignmentPattern)

PName(n) ==
  CASE Is(n, "Ident") -> <<n.Ident.name>>
    [] Is(n, "String") -> <<StrText(n.String)>>
    [] Is(n, "Number") -> <<n.Number.raw>>
    [] Is(n, "Computed") -> <<"[">> \o E(n.Computed) \o <<"]">>

Method(m) ==
  Flag(m.is_static, "static")
  \o Flag(m.kind = "Method" /\ m.asynchronous, "async") \o Flag(m.kind = "Method" /\ m.generator, "*")
  \o Flag(m.kind = "Get", "get") \o Flag(m.kind = "Set", "set")
  \o PName(m.name) \o Params(m.parameters) \o Body(m.body)

(* Parts of a template: an empty text before, between or after the expressions has no part. *)
Tmpl(ps, open) ==
  IF ps = <<>> THEN << open \o "`" >>
  ELSE IF Is(ps[1], "Expr") THEN << open \o "${" >> \o E(ps[1].Expr) \o Tmpl(Tail(ps), "}")
  ELSE IF Len(ps) = 1 THEN << open \o ps[1].String \o "`" >>
  ELSE << open \o ps[1].String \o "${" >> \o E(ps[2].Expr) \o Tmpl(SubSeq(ps, 3, Len(ps)), "}")

Lit0(l) ==
  CASE Is(l, "unit") -> <<"null">>
    [] Is(l, "Boolean") -> << IF l.Boolean THEN "true" ELSE "false" >>
    [] Is(l, "String") -> <<StrText(l.String)>>
    [] Is(l, "Number") -> <<l.Number.raw>>
    [] Is(l, "Regexp") -> <<l.Regexp>>
    [] Is(l, "Template") -> Tmpl(l.Template.parts, "`")
    [] Is(l, "Array") -> LET es == l.Array.elements IN
         <<"[">> \o Holes([i \in DOMAIN es |-> IF Is(es[i], "unit") THEN Null ELSE [t |-> Elem(es[i])]]) \o <<"]">>
    [] Is(l, "Object") -> <<"{">> \o Sep([i \in DOMAIN l.Object.props |->
         LET p == l.Object.props[i] IN
         CASE Is(p, "IdentRef") -> <<p.IdentRef.name>>
           [] Is(p, "Spread") -> <<"...">> \o E(p.Spread)
           [] Is(p, "Named") -> PName(p.Named.name) \o <<":">> \o E(p.Named.value)
           [] Is(p, "Method") -> Method(p.Method)]) \o <<"}">>
Elem(x) == IF Is(x, "Spread") THEN <<"...">> \o E(x.Spread) ELSE E(x.Expr)

Prop(p) == IF Is(p, "Ident") THEN <<".", p.Ident.name>> ELSE <<"[">> \o E(p.Expr) \o <<"]">>

E(x) ==
  CASE Is(x, "IdentRef") -> <<x.IdentRef.name>>
    [] Is(x, "Literal") -> Lit0(x.Literal.literal)
    [] Is(x, "This") -> <<"this">>
    [] Is(x, "Parenthesized") -> <<"(">> \o E(x.Parenthesized.expression) \o <<")">>
    [] Is(x, "Binary") -> E(x.Binary.left) \o <<Inv(BinName, x.Binary.operator)>> \o E(x.Binary.right)
    [] Is(x, "Logical") -> E(x.Logical.left) \o <<Inv(LogName, x.Logical.operator)>> \o E(x.Logical.right)
    [] Is(x, "Unary") -> <<Inv(UnName, x.Unary.operator)>> \o E(x.Unary.argument)
    [] Is(x, "Update") -> IF x.Update.prefix THEN <<Inv(UpdName, x.Update.operator)>> \o E(x.Update.argument)
                          ELSE E(x.Update.argument) \o <<Inv(UpdName, x.Update.operator)>>
    [] Is(x, "Await") -> <<"await">> \o E(x.Await.argument)
    [] Is(x, "Yield") -> <<"yield">> \o Flag(x.Yield.delegate, "*") \o (IF x.Yield.argument = Null THEN <<>> ELSE E(x.Yield.argument))
    [] Is(x, "Conditional") -> E(x.Conditional.condition) \o <<"?">> \o E(x.Conditional.consequent) \o <<":">> \o E(x.Conditional.alternate)
    [] Is(x, "Sequence") -> Sep([i \in DOMAIN x.Sequence.expr |-> E(x.Sequence.expr[i])])
    [] Is(x, "Assignment") -> PorE(x.Assignment.left) \o <<Inv(AsgName, x.Assignment.operator)>> \o E(x.Assignment.right)
    [] Is(x, "ArrowFunction") -> LET f == x.ArrowFunction IN
         Flag(f.asynchronous, "async")
         \o (IF f.binding_parameter THEN BindElem(f.parameters.bindings[1]) ELSE Params(f.parameters))
         \o <<"=>">> \o (IF Is(f.body, "Expr") THEN E(f.body.Expr) ELSE Body(f.body.Body))
    [] Is(x, "Function") -> Func(x.Function)
    [] Is(x, "Class") -> Class(x.Class)
    [] Is(x, "Member") -> (IF Is(x.Member.object, "Super") THEN <<"super">> ELSE E(x.Member.object.Expr)) \o Prop(x.Member.property)
    [] Is(x, "OptionalMember") -> E(x.OptionalMember.object)
         \o (IF x.OptionalMember.optional
             THEN <<"?.">> \o (LET p == Prop(x.OptionalMember.property) IN IF p[1] = "." THEN Tail(p) ELSE p)
             ELSE Prop(x.OptionalMember.property))
    [] Is(x, "Call") -> (LET c == x.Call.callee IN IF Is(c, "unit") THEN << IF c.unit = "Super" THEN "super" ELSE "import" >> ELSE E(c.Expr))
         \o Args(x.Call.arguments)
    [] Is(x, "OptionalCall") -> E(x.OptionalCall.callee) \o Flag(x.OptionalCall.optional, "?.") \o Args(x.OptionalCall.arguments)
    [] Is(x, "New") -> <<"new">> \o E(x.New.callee) \o (IF x.New.arguments_span = Null THEN <<>> ELSE Args(x.New.arguments))
    [] Is(x, "MetaProperty") -> <<x.MetaProperty.meta.name, ".", x.MetaProperty.property.name>>
    [] Is(x, "TaggedTemplate") -> E(x.TaggedTemplate.callee) \o Tmpl(x.TaggedTemplate.template.parts, "`")

Var(v) == <<Inv(KindName, v.kind)>> \o Sep([i \in DOMAIN v.declarations |-> Pat(v.declarations[i].pattern) \o Init0(v.declarations[i].initializer)])
ForLeft(l) ==
  CASE Is(l, "Expr") -> E(l.Expr)
    [] Is(l, "AssignmentPattern") -> AsgPat(l.AssignmentPattern)
    [] Is(l, "Declaration") -> <<Inv(KindName, l.Declaration.kind)>> \o Pat(l.Declaration.binding)

Spec1(a, b) == (IF a = Null THEN <<>> ELSE <<a.name, "as">>) \o <<b.name>>
Import(d) ==
  LET parts == (IF d.default_binding = Null THEN <<>> ELSE << <<d.default_binding.name>> >>)
            \o (IF d.namespace_binding = Null THEN <<>> ELSE << <<"*", "as", d.namespace_binding.name>> >>)
            \o (IF NoList(d.named_imports) THEN <<>> ELSE << <<"{">> \o Sep([i \in DOMAIN d.named_imports |->
                   LET n == d.named_imports[i] IN <<n.name.name>> \o (IF n.alias = Null THEN <<>> ELSE <<"as", n.alias.name>>)]) \o <<"}">> >>) IN
  <<"import">> \o Sep(parts) \o (IF parts = <<>> THEN <<>> ELSE <<"from">>) \o <<StrText(d.from), ";">>
Export(d) ==
  <<"export">> \o
  (CASE Is(d, "Decl") -> S(d.Decl.decl)
     [] Is(d, "DefaultDecl") -> <<"default">> \o S(d.DefaultDecl.decl)
     [] Is(d, "DefaultExpr") -> <<"default">> \o E(d.DefaultExpr.expr) \o <<";">>
     [] Is(d, "Named") -> <<"{">> \o Sep([i \in DOMAIN d.Named.named_exports |->
            Spec1(d.Named.named_exports[i].alias_of, d.Named.named_exports[i].name)]) \o <<"}">>
            \o (IF d.Named.from = Null THEN <<>> ELSE <<"from", StrText(d.Named.from)>>) \o <<";">>
     [] Is(d, "Namespace") -> <<"*">> \o (IF d.Namespace.alias = Null THEN <<>> ELSE <<"as", d.Namespace.alias.name>>)
            \o <<"from", StrText(d.Namespace.from), ";">>)

S(x) ==
  CASE Is(x, "Expr") -> E(x.Expr.expr) \o <<";">>
    [] Is(x, "Block") -> Block(x.Block)
    [] Is(x, "Empty") -> <<";">>
    [] Is(x, "Variable") -> Var(x.Variable) \o <<";">>
    [] Is(x, "If") -> <<"if", "(">> \o E(x.If.condition) \o <<")">> \o S(x.If.consequent)
                      \o (IF x.If.alternate = Null THEN <<>> ELSE <<"else">> \o S(x.If.alternate))
    [] Is(x, "DoWhile") -> <<"do">> \o S(x.DoWhile.body) \o <<"while", "(">> \o E(x.DoWhile.test) \o <<")", ";">>
    [] Is(x, "While") -> <<"while", "(">> \o E(x.While.test) \o <<")">> \o S(x.While.body)
    [] Is(x, "With") -> <<"with", "(">> \o E(x.With.object) \o <<")">> \o S(x.With.body)
    [] Is(x, "For") -> <<"for", "(">>
         \o (LET i == x.For.init IN IF i = Null THEN <<>> ELSE IF Is(i, "Expr") THEN E(i.Expr) ELSE Var(i.Declaration))
         \o <<";">> \o (IF x.For.test = Null THEN <<>> ELSE E(x.For.test))
         \o <<";">> \o (IF x.For.update = Null THEN <<>> ELSE E(x.For.update)) \o <<")">> \o S(x.For.body)
    [] Is(x, "ForIn") -> <<"for", "(">> \o ForLeft(x.ForIn.left) \o <<"in">> \o E(x.ForIn.right) \o <<")">> \o S(x.ForIn.body)
    [] Is(x, "ForOf") -> <<"for">> \o Flag(x.ForOf.asynchronous, "await") \o <<"(">> \o ForLeft(x.ForOf.left) \o <<"of">>
         \o E(x.ForOf.right) \o <<")">> \o S(x.ForOf.body)
    [] Is(x, "Labeled") -> <<x.Labeled.label.name, ":">> \o S(x.Labeled.body)
    [] Is(x, "Break") -> <<"break">> \o Name(x.Break.label) \o <<";">>
    [] Is(x, "Continue") -> <<"continue">> \o Name(x.Continue.label) \o <<";">>
    [] Is(x, "Return") -> <<"return">> \o (IF x.Return.argument = Null THEN <<>> ELSE E(x.Return.argument)) \o <<";">>
    [] Is(x, "Throw") -> <<"throw">> \o E(x.Throw.argument) \o <<";">>
    [] Is(x, "Switch") -> <<"switch", "(">> \o E(x.Switch.discriminant) \o <<")", "{">>
         \o Flatten([i \in DOMAIN x.Switch.cases |-> LET c == x.Switch.cases[i] IN
               (IF c.test = Null THEN <<"default">> ELSE <<"case">> \o E(c.test)) \o <<":">> \o Stmts(c.consequent)]) \o <<"}">>
    [] Is(x, "Try") -> <<"try">> \o Block(x.Try.block)
         \o (LET h == x.Try.handler IN IF h = Null THEN <<>>
             ELSE <<"catch">> \o (IF h.parameter = Null THEN <<>> ELSE <<"(">> \o Pat(h.parameter) \o <<")">>) \o Block(h.body))
         \o (IF x.Try.finalizer = Null THEN <<>> ELSE <<"finally">> \o Block(x.Try.finalizer))
    [] Is(x, "Debugger") -> <<"debugger", ";">>
    [] Is(x, "ClassDecl") -> Class(x.ClassDecl)
    [] Is(x, "FunctionDecl") -> Func(x.FunctionDecl)
    [] Is(x, "ImportDecl") -> Import(x.ImportDecl)
    [] Is(x, "ExportDecl") -> Export(x.ExportDecl)

Text(v) == Dirs(v.directives) \o Stmts(v.body)
=============================================================================
