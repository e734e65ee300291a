A = 'src/compiler/codegen/asm/asm_codegen.c'
BUGS = [
 dict(id='p05-dowhile-continue', prop='P05', file=A, edits=[('''            asm_println(cg, ".L.begin.%lu:", c);
            asm_gen_stmt(cg, node->body);
            asm_println(cg, ".L.continue.%lu:", c);
            asm_gen_expr(cg, node->condition);
            asm_cmp_zero(cg, node->condition->data_type);
            asm_println(cg, "  jne .L.begin.%lu", c);''', '''            asm_println(cg, ".L.begin.%lu:", c);
            if(node->condition->kind != ND_AND) asm_println(cg, "  nop");
            else asm_println(cg, ".L.continue.%lu:", c);
            asm_gen_stmt(cg, node->body);
            if(node->condition->kind != ND_AND) asm_println(cg, ".L.continue.%lu:", c);
            asm_gen_expr(cg, node->condition);
            asm_cmp_zero(cg, node->condition->data_type);
            asm_println(cg, "  jne .L.begin.%lu", c);''')],
  demo='let a: i32; let t: i32;\nfn main(): i32 { a = 0; t = 0; do { a++; t++; if a == 2 continue; if a > 5 break; } while a < 2 && t < 5; ret if t == 2 => 0 else 1; }\n',
  needs='continue in a do-while loop whose condition is a && b and is false at that point', breaks='continue skips the condition of the do-while loop'),
 dict(id='p05-match-restore', prop='P05', file=A, edits=[('''            asm_println(cg, ".L.break.%lu:", c);

            cg->cur_count = pc;
            cg->cur_brk_id = pbrk;
        } return;
        
        case ND_CASE:''', '''            asm_println(cg, ".L.break.%lu:", c);

            cg->cur_count = pc;
            if(node->cases->size < 3)
                cg->cur_brk_id = pbrk;
        } return;
        
        case ND_CASE:''')],
  demo='let t: i32; let k: i32;\nfn main(): i32 { t = 0; k = 9; while t < 10 { match k { 1 => t = 50; 2 => t = 60; 3 => t = 70; _ => t = t + 1; } if t == 3 { break; } } ret if t == 3 => 0 else 1; }\n',
  needs='a break that follows a match with three or more cases inside a loop', breaks='break jumps back to the end of the match'),
 dict(id='p05-for-nocond', prop='P05', file='src/compiler/parser/parser.c', edits=[('''    if(tok_is(p, TOKEN_ELSE))
    {
        parser_advance(p);
        if_stmt->else_branch = parse_stmt(p, needs_semicolon);
    }

    return if_stmt;''', '''    if(tok_is(p, TOKEN_ELSE))
    {
        parser_advance(p);
        if_stmt->else_branch = parse_stmt(p, needs_semicolon);
        if(if_stmt->else_branch->kind == ND_IF && !if_stmt->else_branch->else_branch && if_stmt->if_branch->kind == ND_CONTINUE)
            if_stmt->else_branch = if_stmt->else_branch->if_branch;
    }

    return if_stmt;''')],
  demo='let t: i32; let i: i32;\nfn main(): i32 { t = 0; for i = 0; i < 5; i++; { if i == 1 continue; else if i == 3 t = t + 10; t = t + 1; } ret if t == 14 => 0 else 1; }\n',
  needs='if c continue; else if d ...', breaks='the second condition is dropped'),
]
