kinds_tok = """SEMICOLON:; COMMA:, L_CURLY:{ R_CURLY:} L_BRACK:[ R_BRACK:] L_BRACK2:[[ R_BRACK2:]] L_PAREN:( R_PAREN:) WAT:? ASSIGN:<- SUPER_ASSIGN:<<- WALRUS::= ASSIGN_RIGHT:-> SUPER_ASSIGN_RIGHT:->> EQUAL:= TILDE:~ OR:| OR2:|| AND:& AND2:&& GREATER_THAN:> GREATER_THAN_OR_EQUAL_TO:>= LESS_THAN:< LESS_THAN_OR_EQUAL_TO:<= EQUAL2:== NOT_EQUAL:!= PLUS:+ MINUS:- MULTIPLY:* DIVIDE:/ EXPONENTIATE:^ EXPONENTIATE2:** PIPE:|> DOLLAR:$ AT:@ COLON:: COLON2::: COLON3:::: BANG:! BACKSLASH:\\""".split(" ")
toks=[]
for k in kinds_tok:
    a,b=k.split(":",1); toks.append((a,b))
kws = "FUNCTION:function FOR:for IN:in WHILE:while REPEAT:repeat IF:if ELSE:else RETURN:return NEXT:next BREAK:break TRUE:TRUE FALSE:FALSE NULL:NULL INF:Inf NAN:NaN NA_LOGICAL:NA NA_INTEGER:NA_integer_ NA_DOUBLE:NA_real_ NA_COMPLEX:NA_complex_ NA_CHARACTER:NA_character_".split()
kws=[(k.split(":")[0]+"_KW",k.split(":")[1]) for k in kws]
lits="SPECIAL R_INTEGER_LITERAL R_DOUBLE_LITERAL R_COMPLEX_LITERAL R_STRING_LITERAL DOTS DOT_DOT_I NEWLINE WHITESPACE IDENT COMMENT".split()
E="AnyRExpression"
N=[ # name, kind, fields
("RRoot","R_ROOT","bom_token:otok:0 expressions:list RExpressionList:1 eof_token:tok:2"),
("RIdentifier","R_IDENTIFIER","name_token:tok:0"),
("RDots","R_DOTS","value_token:tok:0"),
("RDotDotI","R_DOT_DOT_I","value_token:tok:0"),
("RIntegerValue","R_INTEGER_VALUE","value_token:tok:0"),
("RDoubleValue","R_DOUBLE_VALUE","value_token:tok:0"),
("RComplexValue","R_COMPLEX_VALUE","value_token:tok:0"),
("RStringValue","R_STRING_VALUE","value_token:tok:0"),
("RTrueExpression","R_TRUE_EXPRESSION","true_token:tok:0"),
("RFalseExpression","R_FALSE_EXPRESSION","false_token:tok:0"),
("RNullExpression","R_NULL_EXPRESSION","null_token:tok:0"),
("RInfExpression","R_INF_EXPRESSION","inf_token:tok:0"),
("RNanExpression","R_NAN_EXPRESSION","nan_token:tok:0"),
("RNaExpression","R_NA_EXPRESSION","value_token:tok:0"),
("RReturnExpression","R_RETURN_EXPRESSION","return_token:tok:0"),
("RNextExpression","R_NEXT_EXPRESSION","next_token:tok:0"),
("RBreakExpression","R_BREAK_EXPRESSION","break_token:tok:0"),
("RFunctionDefinition","R_FUNCTION_DEFINITION","name:tok:0 parameters:req RParameters:1 body:req AnyRExpression:2"),
("RParameters","R_PARAMETERS","l_paren_token:tok:0 items:list RParameterList:1 r_paren_token:tok:2"),
("RParameter","R_PARAMETER","name:req AnyRParameterName:0 default:opt RParameterDefault:1"),
("RParameterDefault","R_PARAMETER_DEFAULT","eq_token:tok:0 value:req AnyRExpression:1"),
("RUnaryExpression","R_UNARY_EXPRESSION","operator:tok:0 argument:req AnyRExpression:1"),
("RBinaryExpression","R_BINARY_EXPRESSION","left:req AnyRExpression:0 operator:tok:1 right:req AnyRExpression:2"),
("RExtractExpression","R_EXTRACT_EXPRESSION","left:req AnyRExpression:0 operator:tok:1 right:req AnyRExpression:2"),
("RNamespaceExpression","R_NAMESPACE_EXPRESSION","left:req AnyRSelector:0 operator:tok:1 right:req AnyRSelector:2"),
("RParenthesizedExpression","R_PARENTHESIZED_EXPRESSION","l_paren_token:tok:0 body:req AnyRExpression:1 r_paren_token:tok:2"),
("RBracedExpressions","R_BRACED_EXPRESSIONS","l_curly_token:tok:0 expressions:list RExpressionList:1 r_curly_token:tok:2"),
("RCall","R_CALL","function:req AnyRExpression:0 arguments:req RCallArguments:1"),
("RCallArguments","R_CALL_ARGUMENTS","l_paren_token:tok:0 items:list RArgumentList:1 r_paren_token:tok:2"),
("RSubset","R_SUBSET","function:req AnyRExpression:0 arguments:req RSubsetArguments:1"),
("RSubsetArguments","R_SUBSET_ARGUMENTS","l_brack_token:tok:0 items:list RArgumentList:1 r_brack_token:tok:2"),
("RSubset2","R_SUBSET2","function:req AnyRExpression:0 arguments:req RSubset2Arguments:1"),
("RSubset2Arguments","R_SUBSET2_ARGUMENTS","l_brack2_token:tok:0 items:list RArgumentList:1 r_brack2_token:tok:2"),
("RArgument","R_ARGUMENT","name_clause:opt RArgumentNameClause:0 value:opt AnyRExpression:1"),
("RArgumentNameClause","R_ARGUMENT_NAME_CLAUSE","name:req AnyRArgumentName:0 eq_token:tok:1"),
("RIfStatement","R_IF_STATEMENT","if_token:tok:0 l_paren_token:tok:1 condition:req AnyRExpression:2 r_paren_token:tok:3 consequence:req AnyRExpression:4 else_clause:opt RElseClause:5"),
("RElseClause","R_ELSE_CLAUSE","else_token:tok:0 alternative:req AnyRExpression:1"),
("RForStatement","R_FOR_STATEMENT","for_token:tok:0 l_paren_token:tok:1 variable:req RIdentifier:2 in_token:tok:3 sequence:req AnyRExpression:4 r_paren_token:tok:5 body:req AnyRExpression:6"),
("RWhileStatement","R_WHILE_STATEMENT","while_token:tok:0 l_paren_token:tok:1 condition:req AnyRExpression:2 r_paren_token:tok:3 body:req AnyRExpression:4"),
("RRepeatStatement","R_REPEAT_STATEMENT","repeat_token:tok:0 body:req AnyRExpression:1"),
]
import re
def snake(n):
    return re.sub(r'(?<!^)(?=[A-Z])','_',n).lower()
bogus=[("RBogus","R_BOGUS"),("RBogusExpression","R_BOGUS_EXPRESSION"),("RBogusValue","R_BOGUS_VALUE")]
lists=[("RExpressionList","R_EXPRESSION_LIST"),("RParameterList","R_PARAMETER_LIST"),("RArgumentList","R_ARGUMENT_LIST")]
values=["RIntegerValue","RDoubleValue","RComplexValue","RStringValue","RBogusValue"]
exprs=["AnyRValue"]+[n for n,_,_ in N if n not in values and n not in("RRoot","RParameters","RParameter","RParameterDefault","RCallArguments","RSubsetArguments","RSubset2Arguments","RArgument","RArgumentNameClause","RElseClause")]+["RBogusExpression"]
unions={"AnyRValue":values,"AnyRExpression":exprs,"AnyRSelector":["AnyRValue","RIdentifier","RDots","RDotDotI","RBogusExpression"],
"AnyRArgumentName":["RStringValue","RIdentifier","RDots","RDotDotI","RNullExpression","RBogus"],"AnyRParameterName":["RIdentifier","RDots","RDotDotI","RBogus"]}
o=["// Generated once by a script; the shapes of R's syntax nodes.","use crate::*;",""]
o.append("#[allow(non_camel_case_types)]\n#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]\n#[repr(u16)]\npub enum RSyntaxKind {\n    TOMBSTONE, EOF, UNICODE_BOM,")
o.append("    "+", ".join(a for a,_ in toks)+",")
o.append("    "+", ".join(a for a,_ in kws)+",")
o.append("    "+", ".join(lits)+",")
o.append("    "+", ".join(k for _,k,_ in N)+",")
o.append("    "+", ".join(k for _,k in bogus+lists)+",\n    __LAST,\n}")
o.append("impl RSyntaxKind {\n    pub const fn to_str(self) -> Option<&'static str> {\n        Some(match self {")
for a,b in toks+kws: o.append(f"            Self::{a} => {chr(34)}{b.replace(chr(92),chr(92)*2)}{chr(34)},")
o.append('            Self::EOF => "EOF",\n            _ => return None,\n        })\n    }')
o.append("    pub const fn is_keyword(self) -> bool { matches!(self, "+" | ".join("Self::"+a for a,_ in kws)+") }")
o.append("    pub const fn is_punct(self) -> bool { matches!(self, "+" | ".join("Self::"+a for a,_ in toks)+") }")
o.append("    pub const fn is_list(self) -> bool { matches!(self, "+" | ".join("Self::"+a for _,a in lists)+") }")
o.append("    pub const fn is_bogus_kind(self) -> bool { matches!(self, "+" | ".join("Self::"+a for _,a in bogus)+") }")
o.append("}\n")
for n,k,fs in N:
    o.append(f"node!({n}, {k}, {n}Fields {{")
    for f in re.findall(r'(\w+):(\w+)(?: (\w+))?:(\d)',fs):
        o.append(f"    {f[0]}: {f[1]} {f[2] or 'RSyntaxToken'} = {f[3]},")
    o.append("});")
for n,k in bogus: o.append(f"node!({n}, {k}, {n}Fields {{}});")
o.append("node_list!(RExpressionList, R_EXPRESSION_LIST, AnyRExpression);")
o.append("separated_list!(RParameterList, R_PARAMETER_LIST, RParameter);")
o.append("separated_list!(RArgumentList, R_ARGUMENT_LIST, RArgument);")
for u,vs in unions.items():
    o.append(f"union!({u} {{ "+", ".join(f"{v} {'as_'+snake(v)}" for v in vs)+" });")
# transitive froms
for v in values: o.append(f"impl From<{v}> for AnyRExpression {{ fn from(n: {v}) -> Self {{ Self::AnyRValue(n.into()) }} }}")
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"src/generated.rs"),"w").write("\n".join(o)+"\n")
