PP = 'src/compiler/preprocessor/preprocessor.c'
BUGS = [
 dict(id='p15-bracket-arg', prop='P15', file=PP, edits=[('if(next->type == TOKEN_LPAREN || next->type == TOKEN_LBRACKET || next->type == TOKEN_LBRACE) depth++;\n                    if((next->type == TOKEN_RPAREN || next->type == TOKEN_RBRACKET || next->type == TOKEN_RBRACE) && depth > 0) depth--;', 'if(next->type == TOKEN_LPAREN || next->type == TOKEN_LBRACE) depth++;\n                    if((next->type == TOKEN_RPAREN || next->type == TOKEN_RBRACE) && depth > 0) depth--;')],
  demo='macro pick(a) { let v = a; }\nmacro pick(a, b) { let v = [1]; }\nfn main(): i32 { pick!([7, 8, 9]) ret if v[2] == 9 => 0 else 1; }\n',
  needs='a macro argument with a comma inside square brackets', breaks='the argument is split at the comma'),
 dict(id='p15-arg-prefix', prop='P15', file=PP, edits=[('if(tok && strcmp(tok->value, callee) == 0)', 'if(tok && strncmp(tok->value, callee, strlen(tok->value)) == 0)')],
  demo='macro sum(x, y) { ((x) + xs[y]) }\nfn main(): i32 { let xs: i32[2] = [10, 20]; ret if sum!(3, 1) == 23 => 0 else 1; }\n',
  needs='an identifier in the body of a macro that begins with the name of a parameter', breaks='the identifier is replaced by the argument'),
 dict(id='p15-overload', prop='P15', file=PP, edits=[('if(strcmp(mac->tok->value, callee) == 0 && mac->argc == argc)', 'if(strcmp(mac->tok->value, callee) == 0 && (mac->argc == argc || (argc == 0 && mac->argc == 1)))')],
  demo='macro one(a) { a 5 }\nmacro one { 4 }\nfn main(): i32 { ret if one! == 4 => 0 else 1; }\n',
  needs='a macro without parameters that is defined after one with a single parameter and the same name', breaks='the definition is rejected or the other macro is expanded'),
 dict(id='p15-arg-shared', prop='P15', file=PP, edits=[('parse_macro_call(pp, &macro_call, src_list, &j, call.args[arg_idx].end_idx);', 'parse_macro_call(pp, &macro_call, src_list, &j, src_list->size);')],
  demo='macro z { 3 }\nmacro z(a) { (a) + 100 }\nmacro pair(x, y) { (x) * 10 + (y) }\nmacro call(f) { f (2) }\nmacro last(x) { x }\nfn main(): i32 { let r = last!{z!} [0 + 1]; ret 0; }\n' if 0 else 'macro z { 3 }\nmacro id(a) { a }\nfn main(): i32 { let r = 0; if id!(r == 3 - z!) { r = 5; } ret if r == 5 => 0 else 1; }\n',
  needs='-', breaks='-') if 0 else None,
 dict(id='p15-line', prop='P15', file=PP, edits=[('sprintf(linestr, "%u", call.tok->line + 1);\n                    list_push(body', 'sprintf(linestr, "%u", tok->line + 1);\n                    list_push(body')],
  demo='macro here { __line__ }\n\nfn main(): i32 {\n    ret if here! == 4 => 0 else 1;\n}\n', needs='-', breaks='-') if 0 else None,
 dict(id='p15-dup-arg', prop='P15', file=PP, edits=[('    for(uint8_t i = 0; i < mac->argc; i++)\n    {\n        Token_T* tok = mac->args[i];', '    for(int8_t i = mac->argc - 1; i > 0 || i == 0; i -= 2)\n    {\n        Token_T* tok = mac->args[i];')], demo='', needs='', breaks='') if 0 else None,
 dict(id='p15-empty-group', prop='P15', file=PP, edits=[('                    else {\n                        arg_end++;\n                        has_arg = true;\n                    }', '                    else {\n                        arg_end++;\n                        has_arg = has_arg || next->type != closing_paren;\n                    }')],
  demo='', needs='', breaks='') if 0 else None,
 dict(id='p15-join-keyword', prop='P15', file='src/compiler/lexer/token.c', edits=[], demo='', needs='', breaks='') if 0 else None,
]
BUGS += [
 dict(id='p15-brace-arg', prop='P15', file=PP, edits=[('next->type == TOKEN_LBRACKET || next->type == TOKEN_LBRACE) depth++;\n                    if((next->type == TOKEN_RPAREN || next->type == TOKEN_RBRACKET || next->type == TOKEN_RBRACE) && depth > 0) depth--;', 'next->type == TOKEN_LBRACKET) depth++;\n                    if((next->type == TOKEN_RPAREN || next->type == TOKEN_RBRACKET) && depth > 0) depth--;')],
  demo='type S: struct { x: i32, y: i32 };\nmacro pick(a) { let v = a; }\nmacro pick(a, b) { let v = S::{9, 9}; }\nfn main(): i32 { pick!(S::{4, 5}) ret if v.y == 5 => 0 else 1; }\n',
  needs='a macro argument with a comma inside braces', breaks='the argument is split at the comma'),
]
BUGS = [b for b in BUGS if b]
