/* harness for the preprocessor: lines of the main file are token templates (one character per token), bytes 1..8 stand for tokens with
 * symbolic type and name; the tokens that the preprocessor leaves are compared with those of a second macro expander */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ast/ast.h"
#include "context.h"
#include "lexer/lexer.h"
#include "lexer/token.h"
#include "preprocessor/preprocessor.h"
#include "preprocessor/stdmacros.h"
#include "error/error.h"
#include "io/file.h"
#include "list.h"

extern int snap_phase, snap_quiet; void snap_trap(void); void snap_write(void); int snap_heap_ok(void);

int tno; unsigned ty[8]; unsigned char h[8], h2[8];   /* inputs */
int ok, ntok, how;                             /* outputs */

enum { LIMIT = 9 };
static Context_T* ctx; static File_T* templates; static ASTProg_T* prog;
static void* unwind[5];

void __real_throw_error(Context_T*, ErrorType_T, Token_T*, const char*, ...);
void __wrap_throw_error(Context_T* c, ErrorType_T t, Token_T* k, const char* m, ...) {
    if(!snap_phase) { __real_throw_error(c, t, k, "%s", m); return; }
    if(t == ERR_SYNTAX_WARNING || t == ERR_UNUSED || t == ERR_DEPRECATED) return;
    __builtin_longjmp(unwind, 1);
}
static int out(char* d, const char* f, va_list va) {
    char* b = d;
    for(; *f; f++) {
        if(*f != '%') { *d++ = *f; continue; }
        int l = 0; f++;
        while(*f == 'l' || *f == 'z' || *f == 'j') { l = 1; f++; }
        if(*f == 's') { const char* s = va_arg(va, char*); while((*d = *s++)) d++; }
        else if(*f == 'd' || *f == 'i' || *f == 'u') {
            unsigned long v = l ? va_arg(va, unsigned long) : va_arg(va, unsigned); char x[24]; int n = 0;
            do x[n++] = '0' + v % 10; while(v /= 10);
            while(n) *d++ = x[--n];
        } else snap_trap();
    }
    *d = 0;
    return d - b;
}
int __wrap_sprintf(char* d, const char* f, ...) { va_list va; va_start(va, f); int r = snap_phase ? out(d, f, va) : vsprintf(d, f, va); va_end(va); return r; }
int __wrap_snprintf(char* d, size_t n, const char* f, ...) { va_list va; va_start(va, f); int r = snap_phase ? out(d, f, va) : vsnprintf(d, n, f, va); va_end(va); return r; }

i32 __wrap_lexer_pass(Context_T* context, ASTProg_T* ast) {
    ctx = context; prog = ast; templates = ast->files->items[0];
    define_std_macros(context, init_list());    /* (date and time are found out once) */
    ctx->flags.timer_enabled = false;
    ctx->max_macro_call_depth = LIMIT;
    snap_quiet = 1;
    templates->path = "p.csp";
    snap_write();
    return 1;
}

/* ------------------------------------------------------------ the second expander */
typedef struct { unsigned type; int line; char v[20]; } Tk;
typedef struct { int n; Tk* t[160]; } L;
typedef struct { Tk* name; int argc; Tk* args[4]; L body; } Def;
enum { FINE, ERROR, UNCLEAR };
static L in; static Tk pool[400]; static int npool; static L lists[100]; static int nlists; static Def defs[8]; static int ndefs; static int calls; static L result; static int verdict;
static int stop(int v) { verdict = v; return 0; }
static Tk* tk(unsigned type, int line) { if(npool == 400) snap_trap(); Tk* t = pool + npool++; t->type = type; t->line = line; for(int i = 0; i < 20; i++) t->v[i] = 0; return t; }
static L* li(void) { if(nlists == 100) snap_trap(); L* l = lists + nlists++; l->n = 0; return l; }
static void add(L* l, Tk* t) { if(l->n == 160) snap_trap(); l->t[l->n++] = t; }
static int same(Tk* a, Tk* b) { return !strcmp(a->v, b->v); }
static int closing(unsigned t) { return t == TOKEN_LPAREN ? TOKEN_RPAREN : t == TOKEN_LBRACKET ? TOKEN_RBRACKET : t == TOKEN_LBRACE ? TOKEN_RBRACE : 0; }
static int closes(unsigned t) { return t == TOKEN_RPAREN || t == TOKEN_RBRACKET || t == TOKEN_RBRACE; }

static int define(int* ip) {
    int i = *ip + 1;
    Def* d = defs + ndefs;
    d->argc = 0; d->body.n = 0;
    if(in.t[i]->type != TOKEN_ID) return stop(ERROR);
    d->name = in.t[i++];
    if(in.t[i]->type == TOKEN_LPAREN) {
        for(i++; in.t[i]->type != TOKEN_RPAREN;) {
            if(in.t[i]->type != TOKEN_ID) return stop(ERROR);
            for(int k = 0; k < d->argc; k++) if(same(d->args[k], in.t[i])) return stop(ERROR);
            if(d->argc == 4) snap_trap();
            d->args[d->argc++] = in.t[i++];
            if(in.t[i]->type == TOKEN_COMMA) { i++; if(in.t[i]->type == TOKEN_RPAREN) return stop(UNCLEAR); }
            else if(in.t[i]->type != TOKEN_RPAREN) return stop(ERROR);
        }
        i++;
    }
    if(in.t[i++]->type != TOKEN_LBRACE) return stop(ERROR);
    for(int depth = 0;; i++) {
        unsigned t = in.t[i]->type;
        if(t == TOKEN_EOF) return stop(ERROR);
        if(t == TOKEN_LBRACE) depth++;
        if(t == TOKEN_RBRACE && !depth--) break;
        add(&d->body, in.t[i]);
    }
    if(!d->argc && d->name->v[0] == '_') return stop(ERROR);      /* (__line__ ... are predefined) */
    for(int k = 0; k < ndefs; k++) if(defs[k].argc == d->argc && same(defs[k].name, d->name)) return stop(ERROR);
    ndefs++;
    *ip = i + 1;
    return 1;
}

static int expand(L* from, int i, int end, L* to, int depth) {
    for(; i < end; i++) {
        Tk* t = from->t[i];
        if(t->type != TOKEN_MACRO_CALL) {
            add(to, t);
            if(depth && to->n >= 3 && to->t[to->n - 2]->type == TOKEN_AT && to->t[to->n - 3]->type == TOKEN_ID) {
                if(t->type != TOKEN_ID && t->type != TOKEN_INT && t->type != TOKEN_IF) return stop(ERROR);
                Tk* c = tk(TOKEN_ID, 0);
                strcpy(c->v, to->t[to->n - 3]->v); strcat(c->v, t->v);
                to->n -= 2; to->t[to->n - 1] = c;
            }
            continue;
        }
        /* the arguments: separated by the commas that are in no brackets */
        int start[6], stp[6], n = 0, any = 0;
        if(i + 1 < end && closing(from->t[i + 1]->type)) {
            unsigned stack[16]; int sp = 0;
            stack[sp++] = closing(from->t[i + 1]->type);
            start[0] = i + 2;
            for(i += 2;; i++) {
                if(i >= end) return stop(UNCLEAR);
                Tk* a = from->t[i];
                if(a->type == TOKEN_EOF) return stop(ERROR);
                if(closing(a->type)) { if(sp == 16) snap_trap(); stack[sp++] = closing(a->type); }
                if(closes(a->type)) { if(a->type != stack[--sp]) return stop(UNCLEAR); if(!sp) break; }
                if(a->type == TOKEN_COMMA && sp == 1) { stp[n++] = i; if(n == 5) snap_trap(); start[n] = i + 1; }
                else any = 1;
            }
            if(n && !any) return stop(UNCLEAR);
            if(any) stp[n++] = i;
        }
        Def* d = 0;
        for(int k = 0; k < ndefs; k++) if(defs[k].argc == n && same(defs[k].name, t)) d = defs + k;
        if(!d) return stop(ERROR);
        calls++;
        if(calls > LIMIT + 1) return stop(depth + 1 > LIMIT + 1 ? ERROR : UNCLEAR);
        L* args[6];
        for(int k = 0; k < n; k++) { args[k] = li(); if(!expand(from, start[k], stp[k], args[k], depth)) return 0; }
        L* body = li();
        for(int k = 0; k < d->body.n; k++) {
            Tk* b = d->body.t[k];
            int p = -1;
            if(b->type == TOKEN_ID) for(int j = 0; j < n; j++) if(same(d->args[j], b)) p = j;
            if(p >= 0) for(int j = 0; j < args[p]->n; j++) add(body, args[p]->t[j]);
            else if(b->type == TOKEN_ID && !strcmp(b->v, "__line__")) { Tk* c = tk(TOKEN_INT, 0); c->v[0] = '0' + t->line + 1; add(body, c); }
            else if(b->type == TOKEN_ID && !strcmp(b->v, "__file__")) { Tk* c = tk(TOKEN_STRING, 0); strcpy(c->v, "p.csp"); add(body, c); }
            else if(b->type == TOKEN_ID && !strcmp(b->v, "__func__")) { Tk* c = tk(TOKEN_CURRENT_FN, 0); add(body, c); }
            else add(body, b);
        }
        if(!expand(body, 0, body->n, to, depth + 1)) return 0;
    }
    return 1;
}

static int real(ASTProg_T* a) {
    if(__builtin_setjmp(unwind)) return 0;
    preprocessor_pass(ctx, a);
    return 1;
}

static unsigned type_of(int c) {
    if(c >= 'a' && c <= 'z') return TOKEN_ID;
    if(c >= 'A' && c <= 'Z') return TOKEN_MACRO_CALL;
    if(c >= '0' && c <= '9') return TOKEN_INT;
    switch(c) {
        case '(': return TOKEN_LPAREN; case ')': return TOKEN_RPAREN; case '[': return TOKEN_LBRACKET; case ']': return TOKEN_RBRACKET;
        case '{': return TOKEN_LBRACE; case '}': return TOKEN_RBRACE; case ',': return TOKEN_COMMA; case ';': return TOKEN_SEMICOLON;
        case '@': return TOKEN_AT; case '+': return TOKEN_OPERATOR; case '?': return TOKEN_IF; case '"': return TOKEN_STRING; case '~': case '^': case '%': return TOKEN_ID;
    }
    if(c == '#') return TOKEN_MACRO;
    snap_trap(); return 0;
}

void run_pp(void) {
    const char* t = templates->lines->items[tno];
    List_T* toks = init_list();
    int line = 0;
    in.n = npool = nlists = ndefs = calls = result.n = 0; verdict = FINE;
    for(int i = 0;; i++) {
        int c = (unsigned char) t[i];
        if(c == ' ') continue;
        if(c == 14) { line++; continue; }
        int end = !c || c == '\n';
        char v[12] = { 0 };
        unsigned type = end ? TOKEN_EOF : 0;
        if(!end) {
            if(c <= 8) { type = ty[c - 1]; v[0] = h[c - 1]; v[1] = h2[c - 1]; }
            else { type = type_of(c); v[0] = c >= 'A' && c <= 'Z' ? c + 32 : c; }
            if(c == '~') strcpy(v, "__line__");
            if(c == '^') strcpy(v, "__func__");
            if(c == '%') strcpy(v, "__file__");
        }
        for(int n = 1; !end && t[i + 1] == '\''; i += 2) v[n++] = t[i + 2];     /* (longer names) */
        Tk* k = tk(type, line);
        strcpy(k->v, v);
        add(&in, k);
        list_push(toks, init_token(&ctx->raw_allocator, v, line, i, type, templates));
        if(end) break;
    }
    /* the macros, the rest of the text */
    L* rest = li();
    ok = how = 0;
    int good = 1;
    for(int i = 0; good && i < in.n;) {
        if(in.t[i]->type == TOKEN_MACRO) { good = define(&i); continue; }
        add(rest, in.t[i++]);
    }
    if(good) good = expand(rest, 0, rest->n, &result, 0);

    ASTProg_T a = *prog;
    a.tokens = toks;
    int r = real(&a);
    how = verdict;
    ntok = result.n;
    if(verdict == UNCLEAR) ok = 1;
    else if(verdict == ERROR) ok = !r;
    else if(r && (int) a.tokens->size == result.n) {
        ok = 1;
        for(int i = 0; i < result.n; i++) {
            Token_T* x = a.tokens->items[i];
            ok &= x->type == result.t[i]->type && !strcmp(x->value, result.t[i]->v);
        }
    }
    if(!snap_heap_ok()) ok = 0;
}
