// Generated once by a script; the shapes of R's syntax nodes.
use crate::*;

#[allow(non_camel_case_types)]
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(u16)]
pub enum RSyntaxKind {
    TOMBSTONE, EOF, UNICODE_BOM,
    SEMICOLON, COMMA, L_CURLY, R_CURLY, L_BRACK, R_BRACK, L_BRACK2, R_BRACK2, L_PAREN, R_PAREN, WAT, ASSIGN, SUPER_ASSIGN, WALRUS, ASSIGN_RIGHT, SUPER_ASSIGN_RIGHT, EQUAL, TILDE, OR, OR2, AND, AND2, GREATER_THAN, GREATER_THAN_OR_EQUAL_TO, LESS_THAN, LESS_THAN_OR_EQUAL_TO, EQUAL2, NOT_EQUAL, PLUS, MINUS, MULTIPLY, DIVIDE, EXPONENTIATE, EXPONENTIATE2, PIPE, DOLLAR, AT, COLON, COLON2, COLON3, BANG, BACKSLASH,
    FUNCTION_KW, FOR_KW, IN_KW, WHILE_KW, REPEAT_KW, IF_KW, ELSE_KW, RETURN_KW, NEXT_KW, BREAK_KW, TRUE_KW, FALSE_KW, NULL_KW, INF_KW, NAN_KW, NA_LOGICAL_KW, NA_INTEGER_KW, NA_DOUBLE_KW, NA_COMPLEX_KW, NA_CHARACTER_KW,
    SPECIAL, R_INTEGER_LITERAL, R_DOUBLE_LITERAL, R_COMPLEX_LITERAL, R_STRING_LITERAL, DOTS, DOT_DOT_I, NEWLINE, WHITESPACE, IDENT, COMMENT,
    R_ROOT, R_IDENTIFIER, R_DOTS, R_DOT_DOT_I, R_INTEGER_VALUE, R_DOUBLE_VALUE, R_COMPLEX_VALUE, R_STRING_VALUE, R_TRUE_EXPRESSION, R_FALSE_EXPRESSION, R_NULL_EXPRESSION, R_INF_EXPRESSION, R_NAN_EXPRESSION, R_NA_EXPRESSION, R_RETURN_EXPRESSION, R_NEXT_EXPRESSION, R_BREAK_EXPRESSION, R_FUNCTION_DEFINITION, R_PARAMETERS, R_PARAMETER, R_PARAMETER_DEFAULT, R_UNARY_EXPRESSION, R_BINARY_EXPRESSION, R_EXTRACT_EXPRESSION, R_NAMESPACE_EXPRESSION, R_PARENTHESIZED_EXPRESSION, R_BRACED_EXPRESSIONS, R_CALL, R_CALL_ARGUMENTS, R_SUBSET, R_SUBSET_ARGUMENTS, R_SUBSET2, R_SUBSET2_ARGUMENTS, R_ARGUMENT, R_ARGUMENT_NAME_CLAUSE, R_IF_STATEMENT, R_ELSE_CLAUSE, R_FOR_STATEMENT, R_WHILE_STATEMENT, R_REPEAT_STATEMENT,
    R_BOGUS, R_BOGUS_EXPRESSION, R_BOGUS_VALUE, R_EXPRESSION_LIST, R_PARAMETER_LIST, R_ARGUMENT_LIST,
    __LAST,
}
impl RSyntaxKind {
    pub const fn to_str(self) -> Option<&'static str> {
        Some(match self {
            Self::SEMICOLON => ";",
            Self::COMMA => ",",
            Self::L_CURLY => "{",
            Self::R_CURLY => "}",
            Self::L_BRACK => "[",
            Self::R_BRACK => "]",
            Self::L_BRACK2 => "[[",
            Self::R_BRACK2 => "]]",
            Self::L_PAREN => "(",
            Self::R_PAREN => ")",
            Self::WAT => "?",
            Self::ASSIGN => "<-",
            Self::SUPER_ASSIGN => "<<-",
            Self::WALRUS => ":=",
            Self::ASSIGN_RIGHT => "->",
            Self::SUPER_ASSIGN_RIGHT => "->>",
            Self::EQUAL => "=",
            Self::TILDE => "~",
            Self::OR => "|",
            Self::OR2 => "||",
            Self::AND => "&",
            Self::AND2 => "&&",
            Self::GREATER_THAN => ">",
            Self::GREATER_THAN_OR_EQUAL_TO => ">=",
            Self::LESS_THAN => "<",
            Self::LESS_THAN_OR_EQUAL_TO => "<=",
            Self::EQUAL2 => "==",
            Self::NOT_EQUAL => "!=",
            Self::PLUS => "+",
            Self::MINUS => "-",
            Self::MULTIPLY => "*",
            Self::DIVIDE => "/",
            Self::EXPONENTIATE => "^",
            Self::EXPONENTIATE2 => "**",
            Self::PIPE => "|>",
            Self::DOLLAR => "$",
            Self::AT => "@",
            Self::COLON => ":",
            Self::COLON2 => "::",
            Self::COLON3 => ":::",
            Self::BANG => "!",
            Self::BACKSLASH => "\\",
            Self::FUNCTION_KW => "function",
            Self::FOR_KW => "for",
            Self::IN_KW => "in",
            Self::WHILE_KW => "while",
            Self::REPEAT_KW => "repeat",
            Self::IF_KW => "if",
            Self::ELSE_KW => "else",
            Self::RETURN_KW => "return",
            Self::NEXT_KW => "next",
            Self::BREAK_KW => "break",
            Self::TRUE_KW => "TRUE",
            Self::FALSE_KW => "FALSE",
            Self::NULL_KW => "NULL",
            Self::INF_KW => "Inf",
            Self::NAN_KW => "NaN",
            Self::NA_LOGICAL_KW => "NA",
            Self::NA_INTEGER_KW => "NA_integer_",
            Self::NA_DOUBLE_KW => "NA_real_",
            Self::NA_COMPLEX_KW => "NA_complex_",
            Self::NA_CHARACTER_KW => "NA_character_",
            Self::EOF => "EOF",
            _ => return None,
        })
    }
    pub const fn is_keyword(self) -> bool { matches!(self, Self::FUNCTION_KW | Self::FOR_KW | Self::IN_KW | Self::WHILE_KW | Self::REPEAT_KW | Self::IF_KW | Self::ELSE_KW | Self::RETURN_KW | Self::NEXT_KW | Self::BREAK_KW | Self::TRUE_KW | Self::FALSE_KW | Self::NULL_KW | Self::INF_KW | Self::NAN_KW | Self::NA_LOGICAL_KW | Self::NA_INTEGER_KW | Self::NA_DOUBLE_KW | Self::NA_COMPLEX_KW | Self::NA_CHARACTER_KW) }
    pub const fn is_punct(self) -> bool { matches!(self, Self::SEMICOLON | Self::COMMA | Self::L_CURLY | Self::R_CURLY | Self::L_BRACK | Self::R_BRACK | Self::L_BRACK2 | Self::R_BRACK2 | Self::L_PAREN | Self::R_PAREN | Self::WAT | Self::ASSIGN | Self::SUPER_ASSIGN | Self::WALRUS | Self::ASSIGN_RIGHT | Self::SUPER_ASSIGN_RIGHT | Self::EQUAL | Self::TILDE | Self::OR | Self::OR2 | Self::AND | Self::AND2 | Self::GREATER_THAN | Self::GREATER_THAN_OR_EQUAL_TO | Self::LESS_THAN | Self::LESS_THAN_OR_EQUAL_TO | Self::EQUAL2 | Self::NOT_EQUAL | Self::PLUS | Self::MINUS | Self::MULTIPLY | Self::DIVIDE | Self::EXPONENTIATE | Self::EXPONENTIATE2 | Self::PIPE | Self::DOLLAR | Self::AT | Self::COLON | Self::COLON2 | Self::COLON3 | Self::BANG | Self::BACKSLASH) }
    pub const fn is_list(self) -> bool { matches!(self, Self::R_EXPRESSION_LIST | Self::R_PARAMETER_LIST | Self::R_ARGUMENT_LIST) }
    pub const fn is_bogus_kind(self) -> bool { matches!(self, Self::R_BOGUS | Self::R_BOGUS_EXPRESSION | Self::R_BOGUS_VALUE) }
}

node!(RRoot, R_ROOT, RRootFields {
    bom_token: otok RSyntaxToken = 0,
    expressions: list RExpressionList = 1,
    eof_token: tok RSyntaxToken = 2,
});
node!(RIdentifier, R_IDENTIFIER, RIdentifierFields {
    name_token: tok RSyntaxToken = 0,
});
node!(RDots, R_DOTS, RDotsFields {
    value_token: tok RSyntaxToken = 0,
});
node!(RDotDotI, R_DOT_DOT_I, RDotDotIFields {
    value_token: tok RSyntaxToken = 0,
});
node!(RIntegerValue, R_INTEGER_VALUE, RIntegerValueFields {
    value_token: tok RSyntaxToken = 0,
});
node!(RDoubleValue, R_DOUBLE_VALUE, RDoubleValueFields {
    value_token: tok RSyntaxToken = 0,
});
node!(RComplexValue, R_COMPLEX_VALUE, RComplexValueFields {
    value_token: tok RSyntaxToken = 0,
});
node!(RStringValue, R_STRING_VALUE, RStringValueFields {
    value_token: tok RSyntaxToken = 0,
});
node!(RTrueExpression, R_TRUE_EXPRESSION, RTrueExpressionFields {
    true_token: tok RSyntaxToken = 0,
});
node!(RFalseExpression, R_FALSE_EXPRESSION, RFalseExpressionFields {
    false_token: tok RSyntaxToken = 0,
});
node!(RNullExpression, R_NULL_EXPRESSION, RNullExpressionFields {
    null_token: tok RSyntaxToken = 0,
});
node!(RInfExpression, R_INF_EXPRESSION, RInfExpressionFields {
    inf_token: tok RSyntaxToken = 0,
});
node!(RNanExpression, R_NAN_EXPRESSION, RNanExpressionFields {
    nan_token: tok RSyntaxToken = 0,
});
node!(RNaExpression, R_NA_EXPRESSION, RNaExpressionFields {
    value_token: tok RSyntaxToken = 0,
});
node!(RReturnExpression, R_RETURN_EXPRESSION, RReturnExpressionFields {
    return_token: tok RSyntaxToken = 0,
});
node!(RNextExpression, R_NEXT_EXPRESSION, RNextExpressionFields {
    next_token: tok RSyntaxToken = 0,
});
node!(RBreakExpression, R_BREAK_EXPRESSION, RBreakExpressionFields {
    break_token: tok RSyntaxToken = 0,
});
node!(RFunctionDefinition, R_FUNCTION_DEFINITION, RFunctionDefinitionFields {
    name: tok RSyntaxToken = 0,
    parameters: req RParameters = 1,
    body: req AnyRExpression = 2,
});
node!(RParameters, R_PARAMETERS, RParametersFields {
    l_paren_token: tok RSyntaxToken = 0,
    items: list RParameterList = 1,
    r_paren_token: tok RSyntaxToken = 2,
});
node!(RParameter, R_PARAMETER, RParameterFields {
    name: req AnyRParameterName = 0,
    default: opt RParameterDefault = 1,
});
node!(RParameterDefault, R_PARAMETER_DEFAULT, RParameterDefaultFields {
    eq_token: tok RSyntaxToken = 0,
    value: req AnyRExpression = 1,
});
node!(RUnaryExpression, R_UNARY_EXPRESSION, RUnaryExpressionFields {
    operator: tok RSyntaxToken = 0,
    argument: req AnyRExpression = 1,
});
node!(RBinaryExpression, R_BINARY_EXPRESSION, RBinaryExpressionFields {
    left: req AnyRExpression = 0,
    operator: tok RSyntaxToken = 1,
    right: req AnyRExpression = 2,
});
node!(RExtractExpression, R_EXTRACT_EXPRESSION, RExtractExpressionFields {
    left: req AnyRExpression = 0,
    operator: tok RSyntaxToken = 1,
    right: req AnyRExpression = 2,
});
node!(RNamespaceExpression, R_NAMESPACE_EXPRESSION, RNamespaceExpressionFields {
    left: req AnyRSelector = 0,
    operator: tok RSyntaxToken = 1,
    right: req AnyRSelector = 2,
});
node!(RParenthesizedExpression, R_PARENTHESIZED_EXPRESSION, RParenthesizedExpressionFields {
    l_paren_token: tok RSyntaxToken = 0,
    body: req AnyRExpression = 1,
    r_paren_token: tok RSyntaxToken = 2,
});
node!(RBracedExpressions, R_BRACED_EXPRESSIONS, RBracedExpressionsFields {
    l_curly_token: tok RSyntaxToken = 0,
    expressions: list RExpressionList = 1,
    r_curly_token: tok RSyntaxToken = 2,
});
node!(RCall, R_CALL, RCallFields {
    function: req AnyRExpression = 0,
    arguments: req RCallArguments = 1,
});
node!(RCallArguments, R_CALL_ARGUMENTS, RCallArgumentsFields {
    l_paren_token: tok RSyntaxToken = 0,
    items: list RArgumentList = 1,
    r_paren_token: tok RSyntaxToken = 2,
});
node!(RSubset, R_SUBSET, RSubsetFields {
    function: req AnyRExpression = 0,
    arguments: req RSubsetArguments = 1,
});
node!(RSubsetArguments, R_SUBSET_ARGUMENTS, RSubsetArgumentsFields {
    l_brack_token: tok RSyntaxToken = 0,
    items: list RArgumentList = 1,
    r_brack_token: tok RSyntaxToken = 2,
});
node!(RSubset2, R_SUBSET2, RSubset2Fields {
    function: req AnyRExpression = 0,
    arguments: req RSubset2Arguments = 1,
});
node!(RSubset2Arguments, R_SUBSET2_ARGUMENTS, RSubset2ArgumentsFields {
    l_brack2_token: tok RSyntaxToken = 0,
    items: list RArgumentList = 1,
    r_brack2_token: tok RSyntaxToken = 2,
});
node!(RArgument, R_ARGUMENT, RArgumentFields {
    name_clause: opt RArgumentNameClause = 0,
    value: opt AnyRExpression = 1,
});
node!(RArgumentNameClause, R_ARGUMENT_NAME_CLAUSE, RArgumentNameClauseFields {
    name: req AnyRArgumentName = 0,
    eq_token: tok RSyntaxToken = 1,
});
node!(RIfStatement, R_IF_STATEMENT, RIfStatementFields {
    if_token: tok RSyntaxToken = 0,
    l_paren_token: tok RSyntaxToken = 1,
    condition: req AnyRExpression = 2,
    r_paren_token: tok RSyntaxToken = 3,
    consequence: req AnyRExpression = 4,
    else_clause: opt RElseClause = 5,
});
node!(RElseClause, R_ELSE_CLAUSE, RElseClauseFields {
    else_token: tok RSyntaxToken = 0,
    alternative: req AnyRExpression = 1,
});
node!(RForStatement, R_FOR_STATEMENT, RForStatementFields {
    for_token: tok RSyntaxToken = 0,
    l_paren_token: tok RSyntaxToken = 1,
    variable: req RIdentifier = 2,
    in_token: tok RSyntaxToken = 3,
    sequence: req AnyRExpression = 4,
    r_paren_token: tok RSyntaxToken = 5,
    body: req AnyRExpression = 6,
});
node!(RWhileStatement, R_WHILE_STATEMENT, RWhileStatementFields {
    while_token: tok RSyntaxToken = 0,
    l_paren_token: tok RSyntaxToken = 1,
    condition: req AnyRExpression = 2,
    r_paren_token: tok RSyntaxToken = 3,
    body: req AnyRExpression = 4,
});
node!(RRepeatStatement, R_REPEAT_STATEMENT, RRepeatStatementFields {
    repeat_token: tok RSyntaxToken = 0,
    body: req AnyRExpression = 1,
});
node!(RBogus, R_BOGUS, RBogusFields {});
node!(RBogusExpression, R_BOGUS_EXPRESSION, RBogusExpressionFields {});
node!(RBogusValue, R_BOGUS_VALUE, RBogusValueFields {});
node_list!(RExpressionList, R_EXPRESSION_LIST, AnyRExpression);
separated_list!(RParameterList, R_PARAMETER_LIST, RParameter);
separated_list!(RArgumentList, R_ARGUMENT_LIST, RArgument);
union!(AnyRValue { RIntegerValue as_r_integer_value, RDoubleValue as_r_double_value, RComplexValue as_r_complex_value, RStringValue as_r_string_value, RBogusValue as_r_bogus_value });
union!(AnyRExpression { AnyRValue as_any_r_value, RIdentifier as_r_identifier, RDots as_r_dots, RDotDotI as_r_dot_dot_i, RTrueExpression as_r_true_expression, RFalseExpression as_r_false_expression, RNullExpression as_r_null_expression, RInfExpression as_r_inf_expression, RNanExpression as_r_nan_expression, RNaExpression as_r_na_expression, RReturnExpression as_r_return_expression, RNextExpression as_r_next_expression, RBreakExpression as_r_break_expression, RFunctionDefinition as_r_function_definition, RUnaryExpression as_r_unary_expression, RBinaryExpression as_r_binary_expression, RExtractExpression as_r_extract_expression, RNamespaceExpression as_r_namespace_expression, RParenthesizedExpression as_r_parenthesized_expression, RBracedExpressions as_r_braced_expressions, RCall as_r_call, RSubset as_r_subset, RSubset2 as_r_subset2, RIfStatement as_r_if_statement, RForStatement as_r_for_statement, RWhileStatement as_r_while_statement, RRepeatStatement as_r_repeat_statement, RBogusExpression as_r_bogus_expression });
union!(AnyRSelector { AnyRValue as_any_r_value, RIdentifier as_r_identifier, RDots as_r_dots, RDotDotI as_r_dot_dot_i, RBogusExpression as_r_bogus_expression });
union!(AnyRArgumentName { RStringValue as_r_string_value, RIdentifier as_r_identifier, RDots as_r_dots, RDotDotI as_r_dot_dot_i, RNullExpression as_r_null_expression, RBogus as_r_bogus });
union!(AnyRParameterName { RIdentifier as_r_identifier, RDots as_r_dots, RDotDotI as_r_dot_dot_i, RBogus as_r_bogus });
impl From<RIntegerValue> for AnyRExpression { fn from(n: RIntegerValue) -> Self { Self::AnyRValue(n.into()) } }
impl From<RDoubleValue> for AnyRExpression { fn from(n: RDoubleValue) -> Self { Self::AnyRValue(n.into()) } }
impl From<RComplexValue> for AnyRExpression { fn from(n: RComplexValue) -> Self { Self::AnyRValue(n.into()) } }
impl From<RStringValue> for AnyRExpression { fn from(n: RStringValue) -> Self { Self::AnyRValue(n.into()) } }
impl From<RBogusValue> for AnyRExpression { fn from(n: RBogusValue) -> Self { Self::AnyRValue(n.into()) } }
