A = 'src/compiler/codegen/asm/asm_codegen.c'
BUGS = [
 dict(id='p01-rshift-narrow', prop='P01', file=A, edits=[('            if(unsigned_type(node->left->data_type))\n                asm_println(cg, "  shr %%cl, %s", ax);', '            if(unsigned_type(node->left->data_type) || left_type->size < 4)\n                asm_println(cg, "  shr %%cl, %s", ax);')],
  demo='let a: i16; let s: i16; let r: i16;\nfn main(): i32 { a = (-8: i16); s = (15: i16); r = a >> s; let t: i16 = -1; let q: i16 = -2; r = r; if ((a >> s): i32) != -1 { ret 1; } ret if (a >> s) / q == 0 => 0 else 2; }\n',
  needs='right shift of a negative i8/i16 by more than zero... the sign bits beyond the narrow type are lost only for shifts reaching past bit 15 after wrapping', breaks='arithmetic right shift of narrow signed values'),
 dict(id='p01-mul-i64-const', prop='P01', file=A, edits=[('    if(left_type->kind == TY_I64 || left_type->kind == TY_U64 || left_type->base)\n', '    if(left_type->kind == TY_I64 || left_type->kind == TY_U64 || (left_type->base && node->kind != ND_XOR) || (left_type->size == 8 && node->kind != ND_XOR))\n'), ('        case ND_XOR:\n            asm_println(cg, "  xor %s, %s", di, ax);', '        case ND_XOR:\n            asm_println(cg, "  xor %s, %s", di, ax);\n            if(left_type->kind == TY_I64 && node->right->kind == ND_CLOSURE)\n                asm_println(cg, "  movsxd %%eax, %%rax");')],
  demo='let a: i64; let b: i64; let c: i64;\nfn main(): i32 { a = 1; a = a << 40; b = 3; c = 5; let r = a ^ (b ^ c); ret if r - a == 6 => 0 else 1; }\n',
  needs='i64 xor whose right operand is itself a xor, with bits above 31', breaks='nested i64 xor is truncated to 32 bits'),
 dict(id='p02-unsigned-le', prop='P02', file=A, edits=[('            else if(node->kind == ND_LE || node->kind == ND_GE)\n                if(unsigned_type(node->left->data_type))', '            else if(node->kind == ND_LE || node->kind == ND_GE)\n                if(unsigned_type(node->left->data_type) && left_type->size < 8)')],
  demo='let a: u64; let b: u64;\nfn main(): i32 { a = 1; b = 1; b = b << 63; ret if a <= b => 0 else 1; }\n',
  needs='u64 <= or >= with exactly one operand at or above 2^63', breaks='unsigned 64 bit <= and >='),
 dict(id='p03-f32-sub-self', prop='P03', file=A, edits=[('            if(node->kind == ND_GT || node->kind == ND_GE)\n            {\n                asm_gen_expr(cg, node->left);\n                asm_pushf(cg);', '            if(node->kind == ND_GT || node->kind == ND_GE || (node->kind == ND_SUB && node->right->kind == ND_CALL && node->left->kind == ND_CLOSURE))\n            {\n                asm_gen_expr(cg, node->left);\n                asm_pushf(cg);')],
  demo='let a: f64; let b: f64;\nfn id(x: f64): f64 { ret x; }\nfn main(): i32 { a = 3.0; b = 5.0; let r = (-a) - id(b); ret if r == -8.0 => 0 else 1; }\n',
  needs='float subtraction whose left operand is a negation and whose right operand is a call', breaks='operand order of that subtraction'),
 dict(id='p04-u8-i64', prop='P04', file=A, edits=[('  {i32i8, NULL,   NULL,   i32i64, NULL,  NULL,   NULL,   i32i64, i32f32, i32f64, i32f80}, // u8', '  {NULL,  NULL,   NULL,   i32i64, NULL,  NULL,   NULL,   i32i64, i32f32, i32f64, i32f80}, // u8')],
  demo='let a: u8; let r: i32;\nfn main(): i32 { a = 200; let x = (a: i8); r = ((a: i8): i32); ret if r == -56 && r == (x: i32) => 0 else 1; }\n',
  needs='a u8 value >= 128 cast to i8 and used directly in a wider expression', breaks='u8 -> i8 keeps the zero extension'),
 dict(id='p04-u32-f64', prop='P04', file=A, edits=[('u32f64[] = "mov %eax, %eax; cvtsi2sdq %rax, %xmm0"', 'u32f64[] = "cvtsi2sdl %eax, %xmm0"')],
  demo='let a: u32; \nfn main(): i32 { a = 1; a = a << 31; let r = (a: f64); ret if r == 2147483648.0 => 0 else 1; }\n',
  needs='u32 >= 2^31 converted to f64', breaks='u32 -> f64'),
]
