A = 'src/compiler/codegen/asm/asm_codegen.c'
C = 'src/compiler/codegen/transpiler/c_codegen.c'
S = 'src/std/'
IMP = 'import "std.csp";\n'
BUGS = [
 dict(id='p06-struct-tail', prop='P06', file=A, edits=[("""                assert(ty->size <= 16);
                if(asm_has_flonum(ty, 0, 8, 0))
                    asm_store_fp(cg, fp++, arg->offset, MIN(8, ty->size));
                else
                    asm_store_gp(cg, gp++, arg->offset, MIN(8, ty->size));
                                
                if(ty->size > 8)
                {
                    if(asm_has_flonum(ty, 8, 16, 0))
                        asm_store_fp(cg, fp++, arg->offset + 8, ty->size - 8);
                    else
                        asm_store_gp(cg, gp++, arg->offset + 8, ty->size - 8);
                }
                break;
            case TY_F32:
            case TY_F64:
                asm_store_fp(cg, fp++, arg->offset, ty->size);
                break;
            default:
                asm_store_gp(cg, gp++, arg->offset, ty->size);
        }
    }

    // emit code
    cg->current_fn_name = fn_name;""", """                assert(ty->size <= 16);
                if(asm_has_flonum(ty, 0, 8, 0))
                    asm_store_fp(cg, fp++, arg->offset, MIN(8, ty->size));
                else
                    asm_store_gp(cg, gp++, arg->offset, MIN(8, ty->size));
                                
                if(ty->size > 8)
                {
                    if(asm_has_flonum(ty, 8, 16, 0))
                        asm_store_fp(cg, fp++, arg->offset + 8, ty->size - 8);
                    else
                        asm_store_gp(cg, gp++, arg->offset + 8, ty->size > 12 ? (ty->size - 8) & ~1 : ty->size - 8);
                }
                break;
            case TY_F32:
            case TY_F64:
                asm_store_fp(cg, fp++, arg->offset, ty->size);
                break;
            default:
                asm_store_gp(cg, gp++, arg->offset, ty->size);
        }
    }

    // emit code
    cg->current_fn_name = fn_name;""")],
  demo="type S: struct { a: u8 'c[15] };\nlet s: S;\nfn f(x: S): i32 = (x.a[14]: i32);\nfn main(): i32 { s.a[14] = 77; ret if f(s) == 77 => 0 else 1; }\n",
  needs='a structure of 13 or 15 bytes passed by value', breaks='the last byte of the argument is lost'),
 dict(id='p06-ret-order', prop='P06', file=A, edits=[('''            char* reg1 = gp == 0 ? "%al" : "%dl";
            char* reg2 = gp == 0 ? "%rax" : "%rdx";
            for(i32 i = 8; i < MIN(16, ty->size); i++) ''', '''            char* reg1 = fp == 0 && gp == 0 ? "%al" : "%dl";
            char* reg2 = gp == 0 ? "%rax" : "%rdx";
            if(fp && ty->size == 16) reg1 = "%cl", reg2 = "%rcx";
            for(i32 i = 8; i < MIN(16, ty->size); i++) ''')],
  demo="type S: struct { a: f64, b: i64 };\nfn f(x: i64): S { ret S::{1.5: f64, x}; }\nfn main(): i32 { let s = f(1234567); ret if s.b == 1234567 => 0 else 1; }\n",
  needs='a function that returns a 16 byte structure of a floating point number followed by an integer', breaks='the integer half of the returned structure is garbage'),
 dict(id='p12-cast-samesize', prop='P12', file=C, edits=[('''            if(node->data_type->kind == TY_STRUCT)
            {
                // TODO''', '''            if(node->data_type->kind == TY_STRUCT || (is_integer(unpack(node->data_type)) && is_integer(unpack(node->left->data_type)) && unpack(node->data_type)->size == unpack(node->left->data_type)->size && unpack(node->data_type)->size == 4))
            {
                // TODO''')],
  demo_sh='''#!/bin/bash
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cd "$d"; mkdir -p .cache
echo 'let a: i32; let b: i32; fn main(): i32 { a = -1; b = 1; ret if (a: u32) < (b: u32) => 1 else 0; }' > p.csp
HOME=$d timeout 60 /repo/build/bin/cspc build p.csp -b C -p /repo/src/std -o p.out --silent </dev/null >/dev/null 2>&1
[ -x p.out ] || exit 1
./p.out''',
  needs='a cast between i32 and u32 whose result is compared', breaks='the C backend drops the cast'),
 dict(id='p12-continue-for', prop='P12', file=C, edits=[('''        c_putc(cg, ';');
        
        if(node->expr)
            c_gen_expr(cg, node->expr, true);
        c_println(cg, "){");
        c_gen_stmt(cg, node->body);
        c_println(cg, "}");

        if(node->locals->size > 0)''', '''        c_putc(cg, ';');
        
        if(node->expr && node->condition)
            c_gen_expr(cg, node->expr, true);
        c_println(cg, "){");
        c_gen_stmt(cg, node->body);
        if(node->expr && !node->condition)
        {
            c_gen_expr(cg, node->expr, true);
            c_putc(cg, ';');
        }
        c_println(cg, "}");

        if(node->locals->size > 0)''')],
  demo_sh='''#!/bin/bash
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cd "$d"; mkdir -p .cache
echo 'fn main(): i32 { let n = 0; for let i = 0;; i++; { n++; if n > 20 ret 1; if i == 3 continue; if i > 5 break; } ret 0; }' > p.csp
HOME=$d timeout 60 /repo/build/bin/cspc build p.csp -b C -p /repo/src/std -o p.out --silent </dev/null >/dev/null 2>&1
[ -x p.out ] || exit 1
timeout 10 ./p.out''',
  needs='continue in a for loop without condition, translated to C', breaks='continue skips the step of the loop'),
 dict(id='p20-memchr-word', prop='P20', file=S + 'c_str.csp', edits=[('repeated_c |= repeated_c << 31 << 1;', 'repeated_c |= repeated_c << 31;')],
  demo=IMP + "let b: u64[3];\nfn main(): i32 { let p = ((&b[0]): &u8); for let i = 0; i < 16; i++; p[i] = 65; p[14] = 90; ret if std::c_str::memchr(p, 90, 16) == ((&p[14]): &void) => 0 else 1; }\n",
  needs='a character in the upper half of an aligned word', breaks='memchr does not find it'),
 dict(id='p21-overlap', prop='P21', file=S + 'memory.csp', edits=[('<- (x <= y && x + n > y) || (y <= x && y + n > x);', '<- (x <= y && x + n > y) || (y < x && y + n - 1 > x);')],
  demo=IMP + "let b: u8[40];\nfn main(): i32 { ret if std::memory::ptr_overlap((&b[4]): &void, (&b[1]): &void, 4) => 0 else 1; }\n",
  needs='two ranges that overlap in exactly one byte, the second one first', breaks='the overlap is not noticed'),
 dict(id='p22-insert-size', prop='P22', file=S + 'vec.csp', edits=[('''                    &(v_data.buff[pos * type_size]),
                    (v_data.size - pos) * type_size);

            v_data.size = new_length;''', '''                    &(v_data.buff[pos * type_size]),
                    (if pos == 0 => v_data.size - 1 else v_data.size - pos) * type_size);

            v_data.size = new_length;''')],
  demo=IMP + "fn main(): i32 { let v = vec![i32, 8]; vec_add!{v, 1}; vec_add!{v, 2}; vec_add!{v, 3}; vec_insert!{v, 0, 9}; ret if v[3] == 3 && v[1] == 1 => 0 else 1; }\n",
  needs='insertion at the front of a vector', breaks='the last element is not moved'),
 dict(id='p22-erase', prop='P22', file=S + 'vec.csp', edits=[('(v_data.size - pos - length) * type_size);', '(v_data.size - pos - (if length > 1 => length + 1 else length)) * type_size);')],
  demo=IMP + "fn main(): i32 { let v = vec![i32, 8]; vec_add!{v, 1}; vec_add!{v, 2}; vec_add!{v, 3}; vec_add!{v, 4}; vec_erase!{v, 0, 2}; ret if v[0] == 3 && v[1] == 4 => 0 else 1; }\n",
  needs='erasing more than one element before others', breaks='the last element is not moved down'),
 dict(id='p23-probe', prop='P23', file=S + 'hashmap.csp', edits=[('for 0..hashmap_num_allocated!(map) {', 'for 0..hashmap_num_allocated!(map) / 4 {')],
  demo=IMP + '''fn main(): i32 {
    let m = hashmap_init![i32, i32];
    let bad = 0;
    for let i = 1; i < 33; i++; { hashmap_put![m, (i * 7), i]; }
    for let i = 1; i < 33; i++; { if hashmap_get![m, (i * 7)] != i bad++; }
    ret if bad == 0 => 0 else 1; }
''', needs='a table that is nearly full and keys that collide', breaks='pairs are not found although they are in the table'),
 dict(id='p24-bswap64', prop='P24', file=S + 'algorithm.csp', edits=[('fn bswap_32(x: u32): u32 = x >> 24 | x >> 8 & 0xff00', 'fn bswap_32(x: u32): u32 = x >> 24 & 0x7f | x >> 8 & 0xff00')],
  demo=IMP + "fn main(): i32 { ret if std::algorithm::bswap_32(0x81020304: u32) == (0x04030281: u32) => 0 else 1; }\n",
  needs='a number with its highest bit set', breaks='that bit is lost when the bytes are swapped'),
 dict(id='p24-isgraph', prop='P24', file=S + 'character.csp', edits=[("c: u32 - 0x21 < 0x5e;", "c - 0x21 < 0x5e;")],
  demo=IMP + "fn main(): i32 { ret if std::character::isgraph(10) == 0 && std::character::isgraph(65) != 0 => 0 else 1; }\n",
  needs='a character below 33', breaks='control characters and the space count as graphic'),
 dict(id='p26-date', prop='P26', file=S + 'time.csp', edits=[('let d = b - 365 * c - c / 4;', 'let d = b - 365 * c - (c - 4716) / 4 - 1179;')],
  demo_sh='exit 0', needs='x', breaks='x'),
 dict(id='p26-loadstate', prop='P26', file=S + 'random.csp', edits=[('i = ((x[-1] >> 8) & 0xff);', 'i = ((x[-1] >> 8) & 0x0f);')],
  demo=IMP + '''let st: u32[80];
fn main(): i32 {
    let a: i64 'c[40];
    let old = std::random::init_state(5, ((&st[0]): &u32), 128);
    for let i = 0; i < 17; i++; std::random::rand();
    std::random::set_state(old);
    std::random::rand();
    std::random::set_state((&st[0]): &u32);
    for let i = 0; i < 40; i++; a[i] = std::random::rand();
    std::random::set_state(old);
    std::random::init_state(5, ((&st[0]): &u32), 128);
    for let i = 0; i < 17; i++; std::random::rand();
    for let i = 0; i < 40; i++; { if a[i] != std::random::rand() ret 1; }
    ret 0; }
''', needs='switching generator states at a position above 15', breaks='the sequence does not resume'),
 dict(id='p26-fallback', prop='P26', file=S + 'time.csp', edits=[('''                    syscall::gettimeofday(ts, 0);
                    ts.tv_nsec *= 1000;''', '''                    if syscall::gettimeofday(ts, 0) == 0 ts.tv_nsec *= 100;
                    if ts.tv_nsec == 0 ts.tv_nsec = 1000;''')], demo_sh='exit 0', needs='x', breaks='x'),
]
BUGS = [b for b in BUGS if b['needs'] != 'x']
