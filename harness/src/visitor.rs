editor! {
    fajt_ast::Program, enter_program, exit_program;
    fajt_ast::Expr, enter_expr, exit_expr;
    fajt_ast::Stmt, enter_stmt, exit_stmt;
    fajt_ast::BindingPattern, enter_binding_pattern, exit_binding_pattern;
    fajt_ast::Literal, enter_literal, exit_literal;
    fajt_ast::LitNumber, enter_number_literal, exit_number_literal;
    fajt_ast::TemplatePart, enter_template_part, exit_template_part;
    fajt_ast::ObjectBindingProp, enter_object_binding_prop, exit_object_binding_prop;
    fajt_ast::PropertyName, enter_property_name, exit_property_name;
    fajt_ast::ClassElement, enter_class_element, exit_class_element;
    fajt_ast::ForInit, enter_for_init, exit_for_init;
    fajt_ast::ForDeclaration, enter_for_declaration, exit_for_declaration;
    fajt_ast::Callee, enter_callee, exit_callee;
    fajt_ast::Argument, enter_argument, exit_argument;
    fajt_ast::MemberObject, enter_member_object, exit_member_object;
    fajt_ast::Super, enter_super, exit_super;
    fajt_ast::MemberProperty, enter_member_property, exit_member_property;
    fajt_ast::ArrayElement, enter_array_element, exit_array_element;
    fajt_ast::ArrowFunctionBody, enter_arrow_function_body, exit_arrow_function_body;
    fajt_ast::PropertyDefinition, enter_property_definition, exit_property_definition;
    fajt_ast::BinaryOperator, enter_binary_operator, exit_binary_operator;
    fajt_ast::LogicalOperator, enter_logical_operator, exit_logical_operator;
    fajt_ast::AssignmentOperator, enter_assignment_operator, exit_assignment_operator;
    fajt_ast::UnaryOperator, enter_unary_operator, exit_unary_operator;
    fajt_ast::UpdateOperator, enter_update_operator, exit_update_operator;
    fajt_ast::DeclExport, enter_export, exit_export;
    fajt_ast::PatternOrExpr, enter_pattern_or_expr, exit_pattern_or_expr;
    fajt_ast::AssignmentPattern, enter_assignment_pattern, exit_assignment_pattern;
    fajt_ast::DeclFunction, enter_function_decl, exit_function_decl;
    fajt_ast::DeclClass, enter_class_decl, exit_class_decl;
    fajt_ast::DeclImport, enter_import, exit_import;
    fajt_ast::StmtExpr, enter_stmt_expr, exit_stmt_expr;
    fajt_ast::StmtBlock, enter_block_stmt, exit_block_stmt;
    fajt_ast::ExprBinary, enter_binary_expr, exit_binary_expr;
    fajt_ast::ExprLogical, enter_logical_expr, exit_logical_expr;
    fajt_ast::ExprUnary, enter_unary_expr, exit_unary_expr;
    fajt_ast::ExprCall, enter_call_expr, exit_call_expr;
    fajt_ast::ExprMember, enter_member_expr, exit_member_expr;
    fajt_ast::ExprOptionalMember, enter_optional_member_expr, exit_optional_member_expr;
    fajt_ast::ExprOptionalCall, enter_optional_call_expr, exit_optional_call_expr;
    fajt_ast::ExprParenthesized, enter_parenthesized_expr, exit_parenthesized_expr;
    fajt_ast::ExprLiteral, enter_literal_expr, exit_literal_expr;
    fajt_ast::ExprAssignment, enter_assignment_expr, exit_assignment_expr;
    fajt_ast::ExprYield, enter_yield_expr, exit_yield_expr;
    fajt_ast::ExprConditional, enter_conditional_expr, exit_conditional_expr;
    fajt_ast::ExprUpdate, enter_update_expr, exit_update_expr;
    fajt_ast::ExprSequence, enter_sequence_expr, exit_sequence_expr;
    fajt_ast::ExprThis, enter_this_expr, exit_this_expr;
    fajt_ast::ExprFunction, enter_function_expr, exit_function_expr;
    fajt_ast::ExprNew, enter_new_expr, exit_new_expr;
    fajt_ast::ExprArrowFunction, enter_arrow_function, exit_arrow_function;
    fajt_ast::ExprAwait, enter_await_expr, exit_await_expr;
    fajt_ast::ExprMetaProperty, enter_meta_property, exit_meta_property;
    fajt_ast::ExprClass, enter_class_expr, exit_class_expr;
    fajt_ast::StmtReturn, enter_return_stmt, exit_return_stmt;
    fajt_ast::StmtVariable, enter_variable_stmt, exit_variable_stmt;
    fajt_ast::StmtEmpty, enter_empty_statement, exit_empty_statement;
    fajt_ast::StmtTry, enter_try_stmt, exit_try_stmt;
    fajt_ast::StmtDebugger, enter_debugger_stmt, exit_debugger_stmt;
    fajt_ast::StmtThrow, enter_throw_stmt, exit_throw_stmt;
    fajt_ast::StmtLabeled, enter_labeled_stmt, exit_labeled_stmt;
    fajt_ast::StmtWith, enter_with_stmt, exit_with_stmt;
    fajt_ast::StmtContinue, enter_continue_stmt, exit_continue_stmt;
    fajt_ast::StmtBreak, enter_break_stmt, exit_break_stmt;
    fajt_ast::StmtSwitch, enter_switch_stmt, exit_switch_stmt;
    fajt_ast::StmtIf, enter_if_stmt, exit_if_stmt;
    fajt_ast::StmtFor, enter_for_stmt, exit_for_stmt;
    fajt_ast::StmtForOf, enter_for_of_stmt, exit_for_of_stmt;
    fajt_ast::StmtForIn, enter_for_in_stmt, exit_for_in_stmt;
    fajt_ast::StmtWhile, enter_while_stmt, exit_while_stmt;
    fajt_ast::StmtDoWhile, enter_do_while_stmt, exit_do_while_stmt;
    fajt_ast::StmtList<fajt_ast::Stmt>, enter_stmt_list, exit_stmt_list;
    fajt_ast::BindingElement, enter_binding_element, exit_binding_element;
    fajt_ast::FormalParameters, enter_formal_parameters, exit_formal_parameters;
    fajt_ast::VariableDeclaration, enter_variable_declaration, exit_variable_declaration;
    fajt_ast::LitString, enter_string_literal, exit_string_literal;
    fajt_ast::LitTemplate, enter_template_literal, exit_template_literal;
    fajt_ast::LitArray, enter_array_literal, exit_array_literal;
    fajt_ast::LitObject, enter_object_literal, exit_object_literal;
    fajt_ast::ArrayBinding, enter_array_binding, exit_array_binding;
    fajt_ast::ObjectBinding, enter_object_binding, exit_object_binding;
    fajt_ast::SingleNameBinding, enter_single_name_binding, exit_single_name_binding;
    fajt_ast::NamedBinding, enter_named_binding, exit_named_binding;
    fajt_ast::NamedProperty, enter_named_property, exit_named_property;
    fajt_ast::MethodDefinition, enter_method_definition, exit_method_definition;
    fajt_ast::CatchClause, enter_catch_clause, exit_catch_clause;
    fajt_ast::SwitchCase, enter_switch_case, exit_switch_case;
    fajt_ast::ExportDecl, enter_export_decl, exit_export_decl;
    fajt_ast::ExportDefaultDecl, enter_export_default_decl, exit_export_default_decl;
    fajt_ast::ExportDefaultExpr, enter_export_default_expr, exit_export_default_expr;
    fajt_ast::ExprTaggedTemplate, enter_tagged_template_expr, exit_tagged_template_expr;
    fajt_ast::ExportNamed, enter_export_named, exit_export_named;
    fajt_ast::ExportNamespace, enter_export_namespace, exit_export_namespace;
    fajt_ast::NamedExport, enter_named_export, exit_named_export;
    fajt_ast::NamedImport, enter_named_import, exit_named_import;
    fajt_ast::Ident, enter_ident, exit_ident;
    fajt_ast::Body, enter_body, exit_body;
    fajt_ast::ForBinding, enter_for_binding, exit_for_binding;
    fajt_ast::ArrayAssignmentPattern, enter_array_assignment_pattern, exit_array_assignment_pattern;
    fajt_ast::AssignmentElement, enter_assignment_element, exit_assignment_element;
    fajt_ast::AssignmentProp, enter_assignment_prop, exit_assignment_prop;
    fajt_ast::NamedAssignmentProp, enter_named_assignment_prop, exit_named_assignment_prop;
    fajt_ast::ObjectAssignmentPattern, enter_object_assignment_pattern, exit_object_assignment_pattern;
    fajt_ast::SingleNameAssignmentProp, enter_single_name_assignment_prop, exit_single_name_assignment_prop;
}
