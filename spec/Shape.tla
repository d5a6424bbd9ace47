------------------------------- MODULE Shape -------------------------------
(***************************************************************************)
(* The kinds of syntax-tree nodes, their children in source order, and     *)
(* what follows from them: which values are trees (WellShaped), and the    *)
(* order in which a visitor enters and leaves the nodes of a tree (Walk).  *)
(*                                                                         *)
(* A kind is <<"E", visitor, variants>> (a choice; the variants map to the *)
(* kind of their content), <<"N", visitor, children>> (a node) or          *)
(* <<"L", values>> (something below which nothing is visited).  A child is *)
(* <<field, kind, "1" | "?" | "*" | "*?">>: one, perhaps one, any number,  *)
(* any number of which some may be absent.                                 *)
(***************************************************************************)
EXTENDS Ast

Ch(f, k) == <<f, k, "1">>
ChO(f, k) == <<f, k, "?">>
ChL(f, k) == <<f, k, "*">>
Sp == Ch("span", "Span")

(* (TLC does not compare a record with a sequence) *)
NoList(y) == ToString(y) = ToString(Null)
Range2(f) == {f[x] : x \in DOMAIN f}

Kinds == [
  Span |-> <<"L", "span">>, Bool |-> <<"L", "bool">>, Text |-> <<"L", "text">>,
  VariableKind |-> <<"L", Range2(KindName)>>, MethodKind |-> <<"L", {"Method", "Get", "Set"}>>,
  BinaryOperator |-> <<"V", "binary_operator", Range2(BinName)>>,
  LogicalOperator |-> <<"V", "logical_operator", Range2(LogName)>>,
  AssignmentOperator |-> <<"V", "assignment_operator", Range2(AsgName)>>,
  UnaryOperator |-> <<"V", "unary_operator", Range2(UnName)>>,
  UpdateOperator |-> <<"V", "update_operator", Range2(UpdName)>>,
  Program |-> <<"E", "program", [Script |-> "StmtList", Module |-> "StmtList"]>>,
  StmtList |-> <<"N", "stmt_list", <<Sp, ChL("directives", "LitString"), ChL("body", "Stmt")>> >>,
  Body |-> <<"N", "body", <<Sp, ChL("directives", "LitString"), ChL("statements", "Stmt")>> >>,
  Ident |-> <<"N", "ident", <<Sp, Ch("name", "Text")>> >>,
  \* ---- statements
  Stmt |-> <<"E", "stmt", [Block |-> "StmtBlock", Break |-> "StmtBreak", Continue |-> "StmtContinue",
     Debugger |-> "StmtDebugger", DoWhile |-> "StmtDoWhile", Empty |-> "StmtEmpty", Expr |-> "StmtExpr",
     For |-> "StmtFor", ForIn |-> "StmtForIn", ForOf |-> "StmtForOf", If |-> "StmtIf",
     Labeled |-> "StmtLabeled", Return |-> "StmtReturn", Switch |-> "StmtSwitch", Throw |-> "StmtThrow",
     Try |-> "StmtTry", Variable |-> "StmtVariable", While |-> "StmtWhile", With |-> "StmtWith",
     ClassDecl |-> "DeclClass", FunctionDecl |-> "DeclFunction", ImportDecl |-> "DeclImport",
     ExportDecl |-> "DeclExport"]>>,
  StmtBlock |-> <<"N", "block_stmt", <<Sp, ChL("statements", "Stmt")>> >>,
  StmtBreak |-> <<"N", "break_stmt", <<Sp, ChO("label", "Ident")>> >>,
  StmtContinue |-> <<"N", "continue_stmt", <<Sp, ChO("label", "Ident")>> >>,
  StmtDebugger |-> <<"N", "debugger_stmt", <<Sp>> >>,
  StmtDoWhile |-> <<"N", "do_while_stmt", <<Sp, Ch("body", "Stmt"), Ch("test", "Expr")>> >>,
  StmtEmpty |-> <<"N", "empty_statement", <<Sp>> >>,
  StmtExpr |-> <<"N", "stmt_expr", <<Sp, Ch("expr", "Expr")>> >>,
  StmtFor |-> <<"N", "for_stmt", <<Sp, ChO("init", "ForInit"), ChO("test", "Expr"), ChO("update", "Expr"), Ch("body", "Stmt")>> >>,
  ForInit |-> <<"E", "for_init", [Expr |-> "Expr", Declaration |-> "StmtVariable"]>>,
  StmtForIn |-> <<"N", "for_in_stmt", <<Sp, Ch("left", "ForDeclaration"), Ch("right", "Expr"), Ch("body", "Stmt")>> >>,
  StmtForOf |-> <<"N", "for_of_stmt", <<Sp, Ch("asynchronous", "Bool"), Ch("left", "ForDeclaration"), Ch("right", "Expr"), Ch("body", "Stmt")>> >>,
  ForDeclaration |-> <<"E", "for_declaration", [Expr |-> "Expr", AssignmentPattern |-> "AssignmentPattern", Declaration |-> "ForBinding"]>>,
  ForBinding |-> <<"N", "for_binding", <<Sp, Ch("kind", "VariableKind"), Ch("binding", "BindingPattern")>> >>,
  StmtIf |-> <<"N", "if_stmt", <<Sp, Ch("condition", "Expr"), Ch("consequent", "Stmt"), ChO("alternate", "Stmt")>> >>,
  StmtLabeled |-> <<"N", "labeled_stmt", <<Sp, Ch("label", "Ident"), Ch("body", "Stmt")>> >>,
  StmtReturn |-> <<"N", "return_stmt", <<Sp, ChO("argument", "Expr")>> >>,
  StmtThrow |-> <<"N", "throw_stmt", <<Sp, Ch("argument", "Expr")>> >>,
  StmtSwitch |-> <<"N", "switch_stmt", <<Sp, Ch("discriminant", "Expr"), ChL("cases", "SwitchCase")>> >>,
  SwitchCase |-> <<"N", "switch_case", <<Sp, ChO("test", "Expr"), ChL("consequent", "Stmt")>> >>,
  StmtTry |-> <<"N", "try_stmt", <<Sp, Ch("block", "StmtBlock"), ChO("handler", "CatchClause"), ChO("finalizer", "StmtBlock")>> >>,
  CatchClause |-> <<"N", "catch_clause", <<Sp, ChO("parameter", "BindingPattern"), Ch("body", "StmtBlock")>> >>,
  StmtVariable |-> <<"N", "variable_stmt", <<Sp, Ch("kind", "VariableKind"), ChL("declarations", "VariableDeclaration")>> >>,
  VariableDeclaration |-> <<"N", "variable_declaration", <<Sp, Ch("pattern", "BindingPattern"), ChO("initializer", "Expr")>> >>,
  StmtWhile |-> <<"N", "while_stmt", <<Sp, Ch("test", "Expr"), Ch("body", "Stmt")>> >>,
  StmtWith |-> <<"N", "with_stmt", <<Sp, Ch("object", "Expr"), Ch("body", "Stmt")>> >>,
  \* ---- declarations
  DeclFunction |-> <<"N", "function_decl", <<Sp, Ch("asynchronous", "Bool"), Ch("generator", "Bool"), Ch("identifier", "Ident"),
     Ch("parameters", "FormalParameters"), Ch("body", "Body")>> >>,
  DeclClass |-> <<"N", "class_decl", <<Sp, Ch("identifier", "Ident"), ChO("super_class", "Expr"), ChL("body", "ClassElement")>> >>,
  ClassElement |-> <<"E", "class_element", [Method |-> "MethodDefinition"]>>,
  MethodDefinition |-> <<"N", "method_definition", <<Sp, Ch("is_static", "Bool"), Ch("asynchronous", "Bool"), Ch("generator", "Bool"),
     Ch("kind", "MethodKind"), Ch("name", "PropertyName"), Ch("parameters", "FormalParameters"), Ch("body", "Body")>> >>,
  FormalParameters |-> <<"N", "formal_parameters", <<Sp, ChL("bindings", "BindingElement"), ChO("rest", "BindingPattern")>> >>,
  DeclImport |-> <<"N", "import", <<Sp, ChO("default_binding", "Ident"), ChO("namespace_binding", "Ident"),
     <<"named_imports", "NamedImport", "?*">>, Ch("from", "LitString")>> >>,
  NamedImport |-> <<"N", "named_import", <<Sp, Ch("name", "Ident"), ChO("alias", "Ident")>> >>,
  DeclExport |-> <<"E", "export", [Decl |-> "ExportDecl", DefaultExpr |-> "ExportDefaultExpr", DefaultDecl |-> "ExportDefaultDecl",
     Named |-> "ExportNamed", Namespace |-> "ExportNamespace"]>>,
  ExportDecl |-> <<"N", "export_decl", <<Sp, Ch("decl", "Stmt")>> >>,
  ExportDefaultExpr |-> <<"N", "export_default_expr", <<Sp, Ch("expr", "Expr")>> >>,
  ExportDefaultDecl |-> <<"N", "export_default_decl", <<Sp, Ch("decl", "Stmt")>> >>,
  ExportNamed |-> <<"N", "export_named", <<Sp, ChL("named_exports", "NamedExport"), ChO("from", "LitString")>> >>,
  ExportNamespace |-> <<"N", "export_namespace", <<Sp, ChO("alias", "Ident"), Ch("from", "LitString")>> >>,
  NamedExport |-> <<"N", "named_export", <<Sp, ChO("alias_of", "Ident"), Ch("name", "Ident")>> >>,
  \* ---- patterns
  BindingPattern |-> <<"E", "binding_pattern", [Ident |-> "Ident", Array |-> "ArrayBinding", Object |-> "ObjectBinding"]>>,
  BindingElement |-> <<"N", "binding_element", <<Sp, Ch("pattern", "BindingPattern"), ChO("initializer", "Expr")>> >>,
  ArrayBinding |-> <<"N", "array_binding", <<Sp, <<"elements", "BindingElement", "*?">>, ChO("rest", "BindingPattern")>> >>,
  ObjectBinding |-> <<"N", "object_binding", <<Sp, ChL("props", "ObjectBindingProp"), ChO("rest", "BindingPattern")>> >>,
  ObjectBindingProp |-> <<"E", "object_binding_prop", [Single |-> "SingleNameBinding", Named |-> "NamedBinding"]>>,
  SingleNameBinding |-> <<"N", "single_name_binding", <<Sp, Ch("ident", "Ident"), ChO("initializer", "Expr")>> >>,
  NamedBinding |-> <<"N", "named_binding", <<Sp, Ch("property", "PropertyName"), Ch("binding", "BindingElement")>> >>,
  PropertyName |-> <<"E", "property_name", [Ident |-> "Ident", String |-> "LitString", Number |-> "LitNumber", Computed |-> "Expr"]>>,
  PatternOrExpr |-> <<"E", "pattern_or_expr", [Expr |-> "Expr", AssignmentPattern |-> "AssignmentPattern"]>>,
  AssignmentPattern |-> <<"E", "assignment_pattern", [Array |-> "ArrayAssignmentPattern", Object |-> "ObjectAssignmentPattern"]>>,
  ArrayAssignmentPattern |-> <<"N", "array_assignment_pattern", <<Sp, <<"elements", "AssignmentElement", "*?">>, ChO("rest", "PatternOrExpr")>> >>,
  AssignmentElement |-> <<"N", "assignment_element", <<Sp, Ch("target", "PatternOrExpr"), ChO("initializer", "Expr")>> >>,
  ObjectAssignmentPattern |-> <<"N", "object_assignment_pattern", <<Sp, ChL("props", "AssignmentProp"), ChO("rest", "PatternOrExpr")>> >>,
  AssignmentProp |-> <<"E", "assignment_prop", [Single |-> "SingleNameAssignmentProp", Named |-> "NamedAssignmentProp"]>>,
  SingleNameAssignmentProp |-> <<"N", "single_name_assignment_prop", <<Sp, Ch("ident", "Ident"), ChO("initializer", "Expr")>> >>,
  NamedAssignmentProp |-> <<"N", "named_assignment_prop", <<Sp, Ch("name", "PropertyName"), Ch("value", "PatternOrExpr"), ChO("initializer", "Expr")>> >>,
  \* ---- literals
  Literal |-> <<"E", "literal", [Null |-> "Unit", Boolean |-> "Bool", String |-> "LitString", Number |-> "LitNumber", Array |-> "LitArray",
     Object |-> "LitObject", Regexp |-> "Text", Template |-> "LitTemplate"]>>,
  LitString |-> <<"N", "string_literal", <<Ch("value", "Text"), Ch("delimiter", "Text")>> >>,
  LitNumber |-> <<"N", "number_literal", <<Ch("raw", "Text")>> >>,
  LitArray |-> <<"N", "array_literal", <<ChL("elements", "ArrayElement")>> >>,
  ArrayElement |-> <<"E", "array_element", [Elision |-> "Unit", Expr |-> "Expr", Spread |-> "Expr"]>>,
  LitObject |-> <<"N", "object_literal", <<ChL("props", "PropertyDefinition")>> >>,
  PropertyDefinition |-> <<"E", "property_definition", [IdentRef |-> "Ident", Spread |-> "Expr", Named |-> "NamedProperty", Method |-> "MethodDefinition"]>>,
  NamedProperty |-> <<"N", "named_property", <<Sp, Ch("name", "PropertyName"), Ch("value", "Expr")>> >>,
  LitTemplate |-> <<"N", "template_literal", <<ChL("parts", "TemplatePart")>> >>,
  TemplatePart |-> <<"E", "template_part", [String |-> "Text", Expr |-> "Expr"]>>,
  \* ---- expressions
  Expr |-> <<"E", "expr", [ArrowFunction |-> "ExprArrowFunction", Assignment |-> "ExprAssignment", Await |-> "ExprAwait",
     Binary |-> "ExprBinary", Call |-> "ExprCall", Class |-> "ExprClass", Conditional |-> "ExprConditional",
     Function |-> "ExprFunction", IdentRef |-> "Ident", Literal |-> "ExprLiteral", Logical |-> "ExprLogical",
     Member |-> "ExprMember", MetaProperty |-> "ExprMetaProperty", New |-> "ExprNew", OptionalCall |-> "ExprOptionalCall",
     OptionalMember |-> "ExprOptionalMember", Parenthesized |-> "ExprParenthesized", Sequence |-> "ExprSequence",
     TaggedTemplate |-> "ExprTaggedTemplate", This |-> "ExprThis", Unary |-> "ExprUnary", Update |-> "ExprUpdate",
     Yield |-> "ExprYield"]>>,
  ExprArrowFunction |-> <<"N", "arrow_function", <<Sp, Ch("asynchronous", "Bool"), Ch("binding_parameter", "Bool"),
     Ch("parameters", "FormalParameters"), Ch("body", "ArrowFunctionBody")>> >>,
  ArrowFunctionBody |-> <<"E", "arrow_function_body", [Expr |-> "Expr", Body |-> "Body"]>>,
  ExprAssignment |-> <<"N", "assignment_expr", <<Sp, Ch("left", "PatternOrExpr"), Ch("operator", "AssignmentOperator"), Ch("right", "Expr")>> >>,
  ExprAwait |-> <<"N", "await_expr", <<Sp, Ch("argument", "Expr")>> >>,
  ExprBinary |-> <<"N", "binary_expr", <<Sp, Ch("left", "Expr"), Ch("operator", "BinaryOperator"), Ch("right", "Expr")>> >>,
  ExprLogical |-> <<"N", "logical_expr", <<Sp, Ch("left", "Expr"), Ch("operator", "LogicalOperator"), Ch("right", "Expr")>> >>,
  ExprCall |-> <<"N", "call_expr", <<Sp, Ch("callee", "Callee"), Ch("arguments_span", "Span"), ChL("arguments", "Argument")>> >>,
  Callee |-> <<"E", "callee", [Super |-> "Unit", Import |-> "Unit", Expr |-> "Expr"]>>,
  Argument |-> <<"E", "argument", [Expr |-> "Expr", Spread |-> "Expr"]>>,
  ExprClass |-> <<"N", "class_expr", <<Sp, ChO("identifier", "Ident"), ChO("super_class", "Expr"), ChL("body", "ClassElement")>> >>,
  ExprConditional |-> <<"N", "conditional_expr", <<Sp, Ch("condition", "Expr"), Ch("consequent", "Expr"), Ch("alternate", "Expr")>> >>,
  ExprFunction |-> <<"N", "function_expr", <<Sp, Ch("asynchronous", "Bool"), Ch("generator", "Bool"), ChO("identifier", "Ident"),
     Ch("parameters", "FormalParameters"), Ch("body", "Body")>> >>,
  ExprLiteral |-> <<"N", "literal_expr", <<Sp, Ch("literal", "Literal")>> >>,
  ExprMember |-> <<"N", "member_expr", <<Sp, Ch("object", "MemberObject"), Ch("property", "MemberProperty")>> >>,
  MemberObject |-> <<"E", "member_object", [Expr |-> "Expr", Super |-> "Super"]>>,
  Super |-> <<"N", "super", <<Sp>> >>,
  MemberProperty |-> <<"E", "member_property", [Ident |-> "Ident", Expr |-> "Expr"]>>,
  ExprMetaProperty |-> <<"N", "meta_property", <<Sp, Ch("meta", "Ident"), Ch("property", "Ident")>> >>,
  ExprNew |-> <<"N", "new_expr", <<Sp, Ch("callee", "Expr"), ChO("arguments_span", "Span"), ChL("arguments", "Argument")>> >>,
  ExprOptionalCall |-> <<"N", "optional_call_expr", <<Sp, Ch("callee", "Expr"), Ch("optional", "Bool"), Ch("arguments_span", "Span"), ChL("arguments", "Argument")>> >>,
  ExprOptionalMember |-> <<"N", "optional_member_expr", <<Sp, Ch("object", "Expr"), Ch("optional", "Bool"), Ch("property", "MemberProperty")>> >>,
  ExprParenthesized |-> <<"N", "parenthesized_expr", <<Sp, Ch("expression", "Expr")>> >>,
  ExprSequence |-> <<"N", "sequence_expr", <<Sp, ChL("expr", "Expr")>> >>,
  ExprTaggedTemplate |-> <<"N", "tagged_template_expr", <<Sp, Ch("callee", "Expr"), Ch("template", "LitTemplate")>> >>,
  ExprThis |-> <<"N", "this_expr", <<Sp>> >>,
  ExprUnary |-> <<"N", "unary_expr", <<Sp, Ch("operator", "UnaryOperator"), Ch("argument", "Expr")>> >>,
  \* (of an update expression the operator is visited last, also when it is written first: a listed finding)
  ExprUpdate |-> <<"N", "update_expr", <<Sp, Ch("prefix", "Bool"), Ch("argument", "Expr"), Ch("operator", "UpdateOperator")>> >>,
  ExprYield |-> <<"N", "yield_expr", <<Sp, Ch("delegate", "Bool"), ChO("argument", "Expr")>> >> ]

Unvisited == {"Span", "Bool", "Text", "Unit", "VariableKind", "MethodKind"}

(* What a visitor does with a tree, one step per node entered ("+") or left ("-"). *)
RECURSIVE Walk(_, _)
Walk(k, v) ==
  IF k \in Unvisited THEN <<>>
  ELSE LET d == Kinds[k] IN
    << <<"+", d[2]>> >>
    \o (CASE d[1] = "V" -> <<>>
          [] d[1] = "E" -> (IF "unit" \in DOMAIN v THEN <<>> ELSE LET x == Variant(v) IN Walk(d[3][x], v[x]))
          [] d[1] = "N" ->
               Flatten([i \in DOMAIN d[3] |->
                 LET c == d[3][i] IN
                 IF c[2] \in Unvisited THEN <<>>
                 ELSE LET y == v[c[1]] IN
                   CASE c[3] = "1" -> Walk(c[2], y)
                     [] c[3] = "?" -> (IF y = Null THEN <<>> ELSE Walk(c[2], y))
                     [] c[3] = "?*" -> (IF NoList(y) THEN <<>> ELSE Flatten([j \in DOMAIN y |-> Walk(c[2], y[j])]))
                     [] OTHER -> Flatten([j \in DOMAIN y |-> IF y[j] = Null THEN <<>> ELSE Walk(c[2], y[j])])]))
    \o << <<"-", d[2]>> >>

(* Where the nodes are that Walk enters, in the same order: the callback, the kind and the path
   (fields, variants and indices from 0) from the root. *)
RECURSIVE Places(_, _, _)
Places(k, v, path) ==
  IF k \in Unvisited THEN <<>>
  ELSE LET d == Kinds[k] IN
    << <<d[2], k, path>> >>
    \o (CASE d[1] = "V" -> <<>>
          [] d[1] = "E" -> (IF "unit" \in DOMAIN v THEN <<>> ELSE LET x == Variant(v) IN Places(d[3][x], v[x], Append(path, x)))
          [] d[1] = "N" ->
               Flatten([i \in DOMAIN d[3] |->
                 LET c == d[3][i] IN
                 IF c[2] \in Unvisited THEN <<>>
                 ELSE LET y == v[c[1]] p == Append(path, c[1]) IN
                   CASE c[3] = "1" -> Places(c[2], y, p)
                     [] c[3] = "?" -> (IF y = Null THEN <<>> ELSE Places(c[2], y, p))
                     [] c[3] = "?*" -> (IF NoList(y) THEN <<>> ELSE Flatten([j \in DOMAIN y |-> Places(c[2], y[j], Append(p, ToString(j - 1)))]))
                     [] OTHER -> Flatten([j \in DOMAIN y |-> IF y[j] = Null THEN <<>> ELSE Places(c[2], y[j], Append(p, ToString(j - 1)))])]))

(* The steps of a walk are well bracketed. *)
RECURSIVE Brackets(_, _, _)
Brackets(w, i, st) ==
  IF i > Len(w) THEN st = <<>>
  ELSE IF w[i][1] = "+" THEN Brackets(w, i + 1, <<w[i][2]>> \o st)
  ELSE st # <<>> /\ st[1] = w[i][2] /\ Brackets(w, i + 1, Tail(st))

(* A tree has exactly the fields and variants of its kind. *)
RECURSIVE WellShaped(_, _)
WellShaped(k, v) ==
  CASE k \in {"Span", "Text", "Unit"} -> TRUE
    [] k = "Bool" -> v \in BOOLEAN
    [] k \in {"VariableKind", "MethodKind"} -> v \in Kinds[k][2]
    [] OTHER ->
       LET d == Kinds[k] IN
       CASE d[1] = "V" -> v \in d[3]
         [] d[1] = "E" -> IF "unit" \in DOMAIN v THEN d[3][v.unit] = "Unit"
                          ELSE /\ Cardinality(DOMAIN v) = 1 /\ Variant(v) \in DOMAIN d[3]
                               /\ WellShaped(d[3][Variant(v)], v[Variant(v)])
         [] d[1] = "N" ->
              /\ DOMAIN v = {d[3][i][1] : i \in DOMAIN d[3]}
              /\ \A i \in DOMAIN d[3] :
                   LET c == d[3][i] y == v[c[1]] IN
                   CASE c[3] = "1" -> WellShaped(c[2], y)
                     [] c[3] = "?" -> y = Null \/ WellShaped(c[2], y)
                     [] c[3] = "?*" -> NoList(y) \/ \A j \in DOMAIN y : WellShaped(c[2], y[j])
                     [] c[3] = "*" -> \A j \in DOMAIN y : WellShaped(c[2], y[j])
                     [] c[3] = "*?" -> \A j \in DOMAIN y : y[j] = Null \/ WellShaped(c[2], y[j])

(* Every node lies within the one above and siblings come in order (a parenthesis or a shorthand
   repeats a span; an empty span may stand at the end of what is before it). *)
RECURSIVE Tight(_, _, _, _)
Tight(k, v, lo, hi) ==
  IF k \in Unvisited \cup {"BinaryOperator", "LogicalOperator", "AssignmentOperator", "UnaryOperator", "UpdateOperator"} THEN TRUE
  ELSE LET d == Kinds[k] IN
    IF d[1] = "E" THEN ("unit" \in DOMAIN v \/ Tight(d[3][Variant(v)], v[Variant(v)], lo, hi))
    ELSE
      LET has == "span" \in DOMAIN v
          a == IF has THEN v.span[1] ELSE lo
          b == IF has THEN v.span[2] ELSE hi IN
      /\ has => (a >= lo /\ b <= hi)
      /\ (has /\ b # 0) => a <= b
      /\ \A i \in DOMAIN d[3] :
           LET c == d[3][i] y == v[c[1]]
               l == IF has THEN a ELSE lo h == IF has /\ b # 0 THEN b ELSE hi IN
           CASE c[3] = "1" -> Tight(c[2], y, l, h)
             [] c[3] = "?" -> y = Null \/ Tight(c[2], y, l, h)
             [] c[3] = "?*" -> NoList(y) \/ \A j \in DOMAIN y : Tight(c[2], y[j], l, h)
             [] OTHER -> \A j \in DOMAIN y : y[j] = Null \/ Tight(c[2], y[j], l, h)
=============================================================================
