/* harness for compile-time evaluation: eval_constexpr on the return expression of f<fno>, with its marked literals replaced by
 * symbolic values, then gen_relocation of the result; the data directives are collected as bytes */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ast/ast.h"
#include "ast/types.h"
#include "context.h"
#include "codegen/asm/asm_codegen.h"
#include "codegen/asm/relocation.h"
#include "codegen/codegen_utils.h"
#include "optimizer/constexpr.h"
#include "error/error.h"
#include "hashmap.h"
#include "list.h"

extern int snap_phase; void snap_trap(void); void snap_write(void);

static ASTNode_T* nodes[200000]; static int nnodes;
ASTNode_T* __real_init_ast_node(Allocator_T* a, ASTNodeKind_T k, Token_T* t);
ASTNode_T* __wrap_init_ast_node(Allocator_T* a, ASTNodeKind_T k, Token_T* t) {
    ASTNode_T* n = __real_init_ast_node(a, k, t);
    if(!snap_phase && nnodes < 200000) nodes[nnodes++] = n;
    return n;
}
static ASTObj_T* objs[200000]; static int nobjs;
ASTObj_T* __real_init_ast_obj(Allocator_T* a, ASTObjKind_T k, Token_T* t);
ASTObj_T* __wrap_init_ast_obj(Allocator_T* a, ASTObjKind_T k, Token_T* t) {
    ASTObj_T* o = __real_init_ast_obj(a, k, t);
    if(!snap_phase && (k == OBJ_GLOBAL || k == OBJ_ENUM_MEMBER) && nobjs < 200000) objs[nobjs++] = o;
    return o;
}
void __real_throw_error(Context_T*, ErrorType_T, Token_T*, const char*, ...);
void __wrap_throw_error(Context_T* c, ErrorType_T ty, Token_T* t, const char* m, ...) {
    if(snap_phase) snap_trap();
    char b[4096]; va_list va; va_start(va, m); vsnprintf(b, sizeof b, m, va); va_end(va);
    __real_throw_error(c, ty, t, "%s", b);
}

enum { MAXF = 4000, MAXH = 8 };
static ASTObj_T* fns[MAXF]; static ASTNode_T* exprs[MAXF];
static struct { ASTNode_T* n; int k; } holes[MAXF][4 * MAXH]; static int nholes[MAXF];
static ConstexprResolver_T resolver; static Context_T* ctx; static ASMCodegenData_T cg;

/* inputs and outputs */
int fno; int hi[MAXH]; long hl[MAXH]; unsigned long hu[MAXH]; float hf[MAXH]; signed char hc[MAXH];
unsigned char res[16]; unsigned nres; long ci; unsigned long cu;

/* ------------------------------------------------------------ data directives -> bytes */
static char text[256]; static unsigned long slot[16]; static int ntext, nslot, bad;
static void flush_line(void) {
    /* "  .<size> <value>" ; numbers written by the format are slots (character 1 + index) */
    char* p = text; text[ntext] = 0;
    while(*p == ' ' || *p == '\t') p++;
    if(!*p) { ntext = nslot = 0; return; }
    int size = 0, zero = 0;
    if(*p++ != '.') bad = 1;
    if(*p >= 1 && *p <= 16) { size = slot[*p - 1]; p++; if(strncmp(p, "byte", 4)) bad = 1; p += 4; }
    else if(!strncmp(p, "zero", 4)) { zero = 1; p += 4; }
    else if(!strncmp(p, "skip", 4)) { zero = 1; p += 4; }
    else if(!strncmp(p, "byte", 4)) { size = 1; p += 4; }
    else if(!strncmp(p, "2byte", 5) || !strncmp(p, "value", 5) || !strncmp(p, "short", 5)) { size = 2; p += 5; }
    else if(!strncmp(p, "4byte", 5)) { size = 4; p += 5; } else if(!strncmp(p, "long", 4)) { size = 4; p += 4; }
    else if(!strncmp(p, "8byte", 5)) { size = 8; p += 5; } else if(!strncmp(p, "quad", 4)) { size = 8; p += 4; }
    else bad = 1;
    while(*p == ' ' || *p == '\t') p++;
    unsigned long v = 0;
    if(*p >= 1 && *p <= 16) v = slot[*p++ - 1]; else if(*p >= '0' && *p <= '9') { while(*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); } else bad = 1;
    if(*p) bad = 1;
    if(zero) { for(; v; v--) { if(nres < sizeof res) res[nres] = 0; nres++; } }
    else for(int i = 0; i < size; i++, nres++) if(nres < sizeof res) res[nres] = v >> (8 * i);
    ntext = nslot = 0;
}
static void emit(const char* f, va_list va) {
    for(; *f; f++) {
        if(*f == '\n') { flush_line(); continue; }
        if(*f != '%') { if(ntext < 255) text[ntext++] = *f; continue; }
        f++;
        int l = 0, neg = 0;
        while(*f == 'l' || *f == 'z' || *f == 'j' || *f == 'h') { if(*f != 'h') l = 1; f++; }
        unsigned long v;
        if(*f == '%') { text[ntext++] = '%'; continue; }
        if(*f == 's') { const char* s = va_arg(va, const char*); while(*s && ntext < 255) text[ntext++] = *s++; continue; }
        if(*f == 'd' || *f == 'i') v = l ? va_arg(va, long) : (long) va_arg(va, int);
        else if(*f == 'u') v = l ? va_arg(va, unsigned long) : va_arg(va, unsigned);
        else { bad = 1; return; }
        if(nslot < 15) { slot[nslot] = v; text[ntext++] = ++nslot; }
    }
}
void __real_asm_print(ASMCodegenData_T*, char*, ...);
void __wrap_asm_print(ASMCodegenData_T* c, char* f, ...) { va_list va; va_start(va, f); emit(f, va); va_end(va); }
void __wrap_asm_println(ASMCodegenData_T* c, char* f, ...) { va_list va; va_start(va, f); emit(f, va); va_end(va); flush_line(); }

int __wrap_asm_codegen_pass(Context_T* context, ASTProg_T* ast) {
    ctx = context;
    for(size_t i = 0; i < ast->objs->size; i++) {
        ASTObj_T* o = ast->objs->items[i];
        int n;
        if(o->kind != OBJ_FUNCTION || !o->body || o->id->callee[0] != 'f' || o->id->callee[1] < '0' || o->id->callee[1] > '9') continue;
        n = atoi(o->id->callee + 1);
        fns[n] = o;
        ASTNode_T* b = o->body;
        if(b->kind == ND_BLOCK) for(size_t j = 0; j < b->stmts->size; j++) if(((ASTNode_T*) b->stmts->items[j])->kind == ND_RETURN) { b = b->stmts->items[j]; break; }
        exprs[n] = b->return_val;
    }
    for(int i = 0; i < nnodes; i++) {
        ASTNode_T* n = nodes[i];
        long v; int kind;
        if(n->kind == ND_INT && n->int_val > 1000000000 && n->int_val < 1000000000 + 8 * MAXF) v = n->int_val - 1000000001, kind = 0;
        else if(n->kind == ND_LONG && n->long_val > 9000000000000000000 && n->long_val < 9000000000000000000 + 8 * MAXF) v = n->long_val - 9000000000000000001, kind = 1;
        else if(n->kind == ND_ULONG && n->ulong_val > 18000000000000000000ul && n->ulong_val < 18000000000000000000ul + 8 * MAXF) v = n->ulong_val - 18000000000000000001ul, kind = 2;
        else if(n->kind == ND_FLOAT && n->float_val > 16000000.f && n->float_val < 16000000.f + 8 * MAXF) v = (long) n->float_val - 16000001, kind = 3;
        else if(n->kind == ND_CHAR && n->int_val > 0x60 && n->int_val <= 0x60 + MAXH) {
            /* characters are too few to carry the function's number: it is the one on the literal's line */
            for(v = 0; v < MAXF && !(fns[v] && fns[v]->tok->line == n->tok->line && fns[v]->tok->source == n->tok->source); v++);
            if(v == MAXF) continue;
            v = v * MAXH + n->int_val - 0x61, kind = 4;
        } else continue;
        int f = v / MAXH;
        holes[f][nholes[f]].n = n; holes[f][nholes[f]++].k = kind * MAXH + v % MAXH;
    }
    for(int i = 0; i < nobjs; i++) objs[i]->offset = 0;       // nothing is stored in the new resolver yet
    init_constexpr_resolver(&resolver, context, ast);
    memset(&cg, 0, sizeof cg);
    cg.context = context; cg.ast = ast; cg.string_literals = init_list();
    snap_write();
    return 1;
}

static ASTNode_T* fill(void) {
    for(int i = 0; i < nholes[fno]; i++) {
        ASTNode_T* n = holes[fno][i].n; int k = holes[fno][i].k & (MAXH - 1);
        switch(holes[fno][i].k / MAXH) {
            case 0: n->int_val = hi[k]; break;
            case 1: n->long_val = hl[k]; break;
            case 2: n->ulong_val = hu[k]; break;
            case 3: n->float_val = hf[k]; break;
            case 4: n->int_val = hc[k]; break;
        }
    }
    return exprs[fno];
}
/* the initial value of a global, as bytes */
void run_init(void) {
    ASTNode_T* e = fill();
    ASTNode_T* v = eval_constexpr(&resolver, e);
    ASTObj_T* fn = fns[fno];
    gen_relocation(&cg, v, fn->args->size ? ((ASTObj_T*) fn->args->items[0])->data_type : fn->return_type);
    if(bad) snap_trap();
}
/* integer constants (array sizes, enumeration values) */
void run_const(void) {
    ASTNode_T* e = fill();
    ci = const_i64(ctx, e);
    cu = const_u64(ctx, e);
}
