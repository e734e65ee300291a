A = 'src/compiler/codegen/asm/asm_codegen.c'
C = 'src/compiler/codegen/transpiler/c_codegen.c'
PA = 'src/compiler/parser/parser.c'
VA = 'src/compiler/parser/validator.c'
IN = 'src/compiler/interpreter/interpreter.c'
BUGS = [
 dict(id='p07-copy-words', prop='P07', file=A, edits=[('''            for(i32 i = 0; i < ty->size; i++) {
                asm_println(cg, "  mov %d(%%rax), %%r8b", i);
                asm_println(cg, "  mov %%r8b, %d(%%rdi)", i);
            }
            return;''', '''            for(i32 i = 0; i < ty->size; i += ty->size > 16 ? 4 : 1) {
                asm_println(cg, "  mov %d(%%rax), %s", i, ty->size > 16 ? "%r8d" : "%r8b");
                asm_println(cg, "  mov %s, %d(%%rdi)", ty->size > 16 ? "%r8d" : "%r8b", i);
            }
            return;''')],
  demo="type S: struct { a: u8 'c[18] };\ntype T: struct { s: S, c: u8, d: u8 };\nlet t: T;\nlet s: S;\nfn main(): i32 { t.c = 5; t.d = 6; s.a[17] = 3; t.s = s; ret if t.c == 5 && t.d == 6 && t.s.a[17] == 3 => 0 else 1; }\n",
  needs='a structure of more than 16 bytes whose size is not a multiple of four, next to other data', breaks='an assignment overwrites the bytes behind its destination'),
 dict(id='p07-union-pad', prop='P07', file=VA, edits=[('''        if(member->data_type->size > biggest)
            biggest = member->data_type->size;''', '''        if(member->data_type->size > biggest && (i == 0 || unpack(member->data_type)->kind != TY_C_ARRAY))
            biggest = member->data_type->size;''')],
  demo="type U: union { x: i32, b: u8 'c[12] };\ntype S: struct { u: U, k: i32 };\nlet s: S;\nfn main(): i32 { s.k = 7; s.u.b[5] = 9; s.u.b[4] = 1; ret if s.k == 7 && s.u.b[5] == 9 => 0 else 1; }\n",
  needs='a union whose largest member is an array that is not its first member', breaks='the union is too small, its bytes overlap the next member'),
 dict(id='p07-unpack-back', prop='P07', file=A, edits=[('''                        size_t index = arg->unpack_mode == UMODE_FTOB ? j : num_indices - j - 1;
                        asm_println(cg, "  lea %ld(%%rbp), %%rax", node->buffer->offset + 8 + (current++ * node->data_type->base->size));''', '''                        size_t index = arg->unpack_mode == UMODE_FTOB || i + 1 < node->args->size ? j : num_indices - j - 1;
                        asm_println(cg, "  lea %ld(%%rbp), %%rax", node->buffer->offset + 8 + (current++ * node->data_type->base->size));''')],
  demo="let a: i32[2] = [3, 4];\nlet q: i32[3];\nfn main(): i32 { q = [a..., 9]; ret if q[0] == 4 && q[1] == 3 && q[2] == 9 => 0 else 1; }\n",
  needs='an array literal that unpacks an array back to front, followed by another element', breaks='the elements are in the wrong order'),
 dict(id='p09-custom-right', prop='P09', file=PA, edits=[('ASTNode_T* right = parse_expr(p, PREC_CUSTOM_OPERATOR, TOKEN_SEMICOLON);', 'ASTNode_T* right = parse_expr(p, PREC_PIPE, TOKEN_SEMICOLON);')],
  demo="operator <->(x: i32, y: i32): i32 { ret x - y; }\nfn main(): i32 { let a: i32 = 9; let b: i32 = 4; let c: i32 = 2; ret if (a <-> b <-> c) == 3 => 0 else 1; }\n",
  needs='two custom operators in a row', breaks='custom operators associate to the right'),
 dict(id='p09-prefix-power', prop='P09', file=PA, edits=[('ASTNode_T* arg = parse_expr(p, PREC_UNARY, TOKEN_SEMICOLON);', 'ASTNode_T* arg = parse_expr(p, PREC_POWER, TOKEN_SEMICOLON);')],
  demo="operator <!>(x: i32): i32 { ret x + 1; }\nfn main(): i32 { let a: i32 = 3; ret if (<!> a²) == 10 => 0 else 1; }\n",
  needs='a custom prefix operator in front of a power', breaks='the prefix operator binds tighter than the power'),
 dict(id='p09-else-cast', prop='P09', file=PA, edits=[('else_expr->right = parse_expr(p, PREC_INFIX_CALL, TOKEN_SEMICOLON);', 'else_expr->right = parse_expr(p, PREC_BIT_OR, TOKEN_SEMICOLON);')],
  demo="fn main(): i32 { let a: i32 = 8; let b: i32 = 3; let c: i32 = 4; ret if (a else b | c) == 8 => 0 else 1; }\n",
  needs='an `else` expression whose fallback uses `|` or a cast', breaks='the rest of the expression is applied to the result of `else`'),
 dict(id='p09-ternary-else', prop='P09', file=PA, edits=[('ternary->else_branch = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);', 'ternary->else_branch = parse_expr(p, PREC_CUSTOM_OPERATOR, TOKEN_SEMICOLON);')],
  demo="operator <->(x: i32, y: i32): i32 { ret x - y; }\nfn main(): i32 { let a: i32 = 1; let b: i32 = 4; let c: i32 = 2; let r: i32 = if a == 1 => b else c <-> a; ret if r == 4 => 0 else 1; }\n",
  needs='a conditional expression followed by a custom operator', breaks='the operator is applied to the whole conditional expression'),
 dict(id='p10-u32-cast', prop='P10', file=IN, edits=[('PRIMITIVE_CAST_FN_DECLS(u32, uinteger.u32)', 'PRIMITIVE_CAST_FN_DECLS(u32, integer.i32)')],
  demo="const A: u32 = 3000000000;\nconst B: i64 = (A: i64) + 1;\nfn main(): i32 { let a: u32 = A; let b: i64 = (a: i64) + 1; ret if B == b => 0 else 1; }\n",
  needs='an unsigned constant above 2^31 converted to a wider type', breaks='the constant is sign extended'),
 dict(id='p10-depth', prop='P10', file=IN, edits=[('''    ictx->recursion_depth--;

    if(ictx->returned) {''', '''    if(fn->args->size > 1)
        ictx->recursion_depth--;

    if(ictx->returned) {''')],
  demo="[constexpr] fn f(a: i32): i32 { ret a + 1; }\n[constexpr] fn g(a: i32, n: i32): i32 { let r: i32 = a; for let i: i32 = 0; i < n; i = i + 1; { r = f(r); } ret r; }\nconst K: i32 = g(3, 1200);\nfn main(): i32 { ret if K == 1203 => 0 else 1; }\n",
  needs='more than 1024 calls of functions with one parameter while compiling', breaks='a valid constant is rejected for its recursion depth'),
 dict(id='p10-args-order', prop='P10', file=IN, edits=[('''        stack_size = align_to(stack_size, local->data_type->align);
        local->offset = stack_size;''', '''        local->offset = stack_size = i > 2 ? stack_size & -local->data_type->align : align_to(stack_size, local->data_type->align);''')],
  demo="[constexpr] fn f(a: i32): i64 { let x: i8 = (a: i8); let y: i8 = 2; let z: i8 = 3; let w: i64 = 5000000000000; ret w + x * y + z; }\nconst K: i64 = f(7);\nfn main(): i32 { ret if K == 5000000000017 => 0 else 1; }\n",
  needs='a [constexpr] function with at least four local variables of different sizes', breaks='the variables overlap'),
 dict(id='p06-stack-align', prop='P06', file=A, edits=[('''    if((cg->depth + stack) % 2 == 1)
    {
        asm_println(cg, "  sub $8, %%rsp");
        cg->depth++;
        stack++;
    }

    asm_push_args2(cg, node->args, true);''', '''    if((cg->depth + (stack > 2 ? 2 : stack)) % 2 == 1)
    {
        asm_println(cg, "  sub $8, %%rsp");
        cg->depth++;
        stack++;
    }

    asm_push_args2(cg, node->args, true);''')],
  demo="fn g(a: i64, b: i64, c: i64, d: i64, e: i64, f: i64, i: i64): i64 { let x: i64 = a; ret ((&x): i64) & 15; }\nfn h(a: i64, b: i64, c: i64, d: i64, e: i64, f: i64, i: i64, j: i64, k: i64): i64 { let x: i64 = a; ret ((&x): i64) & 15; }\nfn main(): i32 { ret if g(1, 2, 3, 4, 5, 6, 7) == h(1, 2, 3, 4, 5, 6, 7, 8, 9) => 0 else 1; }\n",
  needs='a call with at least three arguments on the stack', breaks='the stack is not aligned to 16 bytes at the call'),
 dict(id='p06-ret12', prop='P06', file=A, edits=[('''            assert(ty->size == 12 || ty->size == 16);
            if(ty->size == 12)
                asm_println(cg, "  movss %%xmm%d, %d(%%rbp)", fp, var->offset + 8);''', '''            assert(ty->size == 12 || ty->size == 16);
            if(ty->size == 12 && fp)
                asm_println(cg, "  movss %%xmm%d, %d(%%rbp)", fp, var->offset + 8);''')],
  demo="type S: struct { a: i32, b: i32, c: f32 };\nlet x: S;\nfn f(v: f32): S { x.c = v; ret x; }\nfn g(v: f32): f32 { let k: i32 = 77; let s: S = f(v); let m: i32 = 5; ret s.c + (k: f32) + (m: f32); }\nfn h(v: f32): i64 { let k: i64 = 77; let s: f32 = f(v).c; let q: f32 = f(v).c + f(v).c; let z: f32 = if s == v => q else s; ret k + (z: i64); }\nfn main(): i32 { ret if g(2.0) == 84.0 && h(2.0) == 81 => 0 else 1; }\n",
  needs='a function that returns a 12 byte structure of two integers and a float', breaks='eight bytes are stored, the object next to the result is overwritten'),
 dict(id='p12-unless-block', prop='P12', file=C, edits=[], demo='', needs='', breaks=''),
]
BUGS = [b for b in BUGS if b['edits']]
