A = 'src/compiler/codegen/asm/asm_codegen.c'
C = 'src/compiler/codegen/transpiler/c_codegen.c'
PA = 'src/compiler/parser/parser.c'
VA = 'src/compiler/parser/validator.c'
TC = 'src/compiler/parser/typechecker.c'
VT = 'src/compiler/ast/vtable.c'
LX = 'src/compiler/lexer/lexer.c'
BUGS = [
 dict(id='p14-prefix', prop='P14', file=A, edits=[('''        if(strcmp(func->id->callee, ident) == 0)
            return i;
    }

    unreachable();''', '''        if(strncmp(func->id->callee, ident, strlen(ident)) == 0)
            return i;
    }

    unreachable();''')],
  demo="type I: interface { fn value2(self: &I): i32, fn value(self: &I): i32 };\nlet g: i32;\nnamespace n { dyn(I) fn value(x: &i32): i32 { ret *x; } dyn(I) fn value2(x: &i32): i32 { g = 1; ret 50; } }\nfn get(d: dyn I): i32 { ret d.value(); }\nfn main(): i32 { let k: i32 = 4; ret if get(&k) == 4 || g == 0 => 0 else 1; }\n",
  needs='an interface with two functions where the name of the later one is a prefix of the earlier one\'s', breaks='the call runs the other function'),
 dict(id='p14-same-count', prop='P14', file=VT, edits=[('if(!types_equal(context, vtable->interface, interface_ext))', 'if(vtable->interface->func_decls->size != interface_ext->func_decls->size)')],
  demo="type I: interface { fn a(self: &I): i32, fn b(self: &I): i32 };\ntype J: interface { fn d(self: &J): i32, fn c(self: &J): i32 };\nnamespace n { dyn(I) fn a(x: &i32): i32 { ret *x + 1; } dyn(I) fn b(x: &i32): i32 { ret *x + 2; } }\nnamespace m { dyn(J) fn c(x: &i32): i32 { ret *x + 3; } dyn(J) fn d(x: &i32): i32 { ret *x + 4; } }\nfn get(d: dyn I): i32 { ret d.a() * 10 + d.b(); }\nfn get2(d: dyn J): i32 { ret d.c() * 10 + d.d(); }\nfn main(): i32 { let v: i32 = 0; ret if get(&v) == 12 && get2(&v) == 34 => 0 else 1; }\n",
  needs='a type that implements two interfaces with the same number of functions', breaks='both interfaces share one table of functions'),
 dict(id='p14-order', prop='P14', file=VT, edits=[('        if(!types_equal(context, impl_base_ext, impl->base_type))\n            continue;', '        if(!types_equal(context, impl_base_ext, impl->base_type) && !(impl_base_ext->kind == impl->base_type->kind && impl_base_ext->kind == TY_STRUCT && !create))\n            continue;')],
  demo="type P: struct { a: i32 };\ntype Q: struct { a: i64 };\ntype I: interface { fn id(self: &I): i32 };\nnamespace n { dyn(I) fn id(x: &P): i32 { ret 1; } }\nnamespace m { dyn(I) fn id(x: &Q): i32 { ret 2; } }\nfn get(d: dyn I): i32 { ret d.id(); }\nfn main(): i32 { let p: P; let q: Q; ret if get(&p) == 1 && get(&q) == 2 => 0 else 1; }\n",
  needs='two different structures that implement the same interface', breaks='objects of the second structure get the functions of the first one'),
 dict(id='p14-stack-dyn', prop='P14', file=A, edits=[('''        case TY_STRUCT:
        case TY_DYN:
        case TY_ARRAY:
        case TY_C_ARRAY:
            for(i32 i = 0;''', '''        case TY_STRUCT:
        case TY_ARRAY:
        case TY_C_ARRAY:
            for(i32 i = 0;''')], demo='fn main(): i32 { ret 0; }\n', needs='-', breaks='-') if 0 else None,
 dict(id='p08-ns-outer', prop='P08', file=VA, edits=[('IdentResolveResult_T outer_result = scope_resolve_ident(v, scope, ident->outer);', 'IdentResolveResult_T outer_result = scope_resolve_ident(v, v->global_scope, ident->outer);\n        if(!outer_result.found)\n            outer_result = scope_resolve_ident(v, scope, ident->outer);')],
  demo="namespace k { fn f(): i32 { ret 1; } }\nnamespace a { namespace k { fn f(): i32 { ret 2; } } fn g(): i32 { ret k::f(); } }\nfn main(): i32 { ret if a::g() == 2 && k::f() == 1 => 0 else 1; }\n",
  needs='a namespace inside another one with the same name as a global namespace', breaks='the global namespace is used instead of the inner one'),
 dict(id='p08-using-scope', prop='P08', file=VA, edits=[('''    GET_VALIDATOR(args);
    if(using->body)
        begin_scope(v, NULL);
''', '''    GET_VALIDATOR(args);
    if(using->body)
        begin_scope(v, NULL);
    else if(v->current_scope->outer && v->current_scope->outer != v->global_scope)
        v->current_scope = v->current_scope;
''')], demo='', needs='', breaks='') if 0 else None,
 dict(id='p11-struct-tail', prop='P11', file=A, edits=[('''                    if(asm_has_flonum(ty, 8, 16, 0))
                        asm_store_fp(cg, fp++, arg->offset + 8, ty->size - 8);
                    else
                        asm_store_gp(cg, gp++, arg->offset + 8, ty->size - 8);
                }
                break;
            case TY_F32:
            case TY_F64:
                asm_store_fp(cg, fp++, arg->offset, ty->size);
                break;
            default:
                asm_store_gp(cg, gp++, arg->offset, ty->size);
        }
    }

    ASTObj_T* prev''', '''                    if(asm_has_flonum(ty, 8, 16, 0))
                        asm_store_fp(cg, fp++, arg->offset + 8, ty->size - 8);
                    else
                        asm_store_gp(cg, gp++, arg->offset + 8, MAX(ty->size - 8, 4));
                }
                break;
            case TY_F32:
            case TY_F64:
                asm_store_fp(cg, fp++, arg->offset, ty->size);
                break;
            default:
                asm_store_gp(cg, gp++, arg->offset, ty->size);
        }
    }

    ASTObj_T* prev''')],
  demo="type S: struct { a: u8 'c[9] };\nfn main(): i32 { let s: S; s.a[8] = 5; let bad = 0; let f = |c: u8, t: S, d: u8| i32 => { let x = (c: i32) * 10000 + (d: i32) * 100 + (t.a[8]: i32); ret x; }; if f((7: u8), s, (9: u8)) != 70905 { bad = 1; } ret bad; }\n",
  needs='a closure with a structure of nine to eleven bytes as parameter, next to another one', breaks='the byte next to the parameter is overwritten'),
 dict(id='p12-match-range', prop='P12', file=C, edits=['''i == 0 ? "" : "else ", uid''' and ('''(", i == 0 ? "" : "else ", uid, cmp_mode[_case->mode]);''', '''(", i == 0 || _case->mode != ((ASTNode_T*) node->cases->items[i - 1])->mode ? "" : "else ", uid, cmp_mode[_case->mode]);''')], flags=' -b C',
  demo="fn main(): i32 { let x: i32 = 3; let r: i32 = 0; match x { 3 => r = r + 1; < 5 => r = r + 10; _ => r = r + 100; } ret if r == 1 => 0 else 1; }\n",
  needs='the C backend and a match statement with cases of different comparisons that both apply', breaks='more than one case is executed'),
 dict(id='p12-else-twice', prop='P12', file=C, edits=[('''            c_print(cg, ")?:(");
            c_gen_expr(cg, node->right, true);''', '''            c_print(cg, ")?(");
            c_gen_expr(cg, node->left, true);
            c_print(cg, "):(");
            c_gen_expr(cg, node->right, true);''')], flags=' -b C',
  demo="let n: i32;\nfn f(): i32 { n = n + 1; ret 5; }\nfn main(): i32 { let r: i32 = f() else 7; ret if r == 5 && n == 1 => 0 else 1; }\n",
  needs='the C backend and an `else` expression whose first operand has an effect', breaks='the first operand is evaluated twice'),
 dict(id='p12-dyn-arg', prop='P12', file=C, edits=[('''                    c_print(cg, ", ");
                    ASTObj_T* arg = decl->args->items[i];
                    c_gen_type(cg, arg->data_type, true);''', '''                    c_print(cg, ", ");
                    ASTObj_T* arg = decl->args->items[i > 5 ? 1 : i];
                    c_gen_type(cg, arg->data_type, true);''')], flags=' -b C',
  demo="type I: interface { fn f(self: &I, a: i32, b: i32, c: i32, d: i32, e: f64, g: i32): f64 };\nnamespace n { dyn(I) fn f(x: &i32, a: i32, b: i32, c: i32, d: i32, e: f64, g: i32): f64 { ret e; } }\nnamespace m { dyn(I) fn f(x: &i64, a: i32, b: i32, c: i32, d: i32, e: f64, g: i32): f64 { ret (g: f64); } }\ntype J: interface { fn f(self: &J, a: i32, b: i32, c: i32, d: i32, e: i32, g: f64): f64 };\nnamespace o { dyn(J) fn f(x: &i32, a: i32, b: i32, c: i32, d: i32, e: i32, g: f64): f64 { ret g; } }\nfn get(d: dyn J): f64 { let h: f64 = 2.5; ret d.f(1, 2, 3, 4, 5, h); }\nfn main(): i32 { let k: i32 = 4; ret if get(&k) == 2.5 => 0 else 1; }\n",
  needs='the C backend and an interface function with at least six arguments of different types', breaks='later arguments are converted to the type of the first one'),
 dict(id='p13-crlf', prop='P13', file=LX, edits=[("while(lexer->c == '\\t' || lexer->c == ' ' || lexer->c == '\\r' || lexer->c == '\\n')", "while(lexer->c == '\\t' || lexer->c == ' ' || lexer->c == '\\n' || (lexer->c == '\\r' && lexer_peek(lexer, 1) == '\\n'))")],
  demo="let r: i32 = 5;\r\r\nfn main(): i32 {\r ret if r == 5 => 0 else 1; }\n", needs='a carriage return that is not followed by a line feed', breaks='it is not skipped as white space'),
 dict(id='p13-trailing-dot', prop='P13', file=LX, edits=[("            if(lexer_peek(lexer, 1) == '.')\n", "            if(lexer_peek(lexer, 1) == '.' || lexer_peek(lexer, 1) == ';')\n")],
  demo="fn main(): i32 { let x: f32 = 3.; ret if x == 3.0 => 0 else 1; }\n", needs='a decimal number that ends with its point at the end of a statement', breaks='the point becomes an operator of its own'),
 dict(id='p13-hex-case', prop='P13', file=LX, edits=[('"0123456789aAbBcCdDeEfF_"', '"0123456789aAbBcCdDeEf_"')],
  demo="fn main(): i32 { let x: i32 = 0x1F; ret if x == 31 => 0 else 1; }\n", needs='a hexadecimal number with an upper case F', breaks='the number ends in front of that digit'),
 dict(id='p13-question', prop='P13', file=LX, edits=["" and 0 or ("        case '?':\n        case '.':", "        case '.':")],
  demo="operator <?>(a: i32, b: i32): i32 { ret a - b; }\nfn main(): i32 { ret if (5 <?> 3) == 2 => 0 else 1; }\n", needs='a custom operator that contains a question mark', breaks='the operator is split'),
]
BUGS = [b for b in BUGS if b]
