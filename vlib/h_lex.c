/* harness for the lexer: lines of the main file are templates in which bytes 1..8 stand for symbolic bytes and byte 14 ends a line;
 * every token of the text is compared with the one a second lexer, written from the language's documentation, finds */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ast/ast.h"
#include "context.h"
#include "lexer/lexer.h"
#include "lexer/token.h"
#include "error/error.h"
#include "io/file.h"
#include "list.h"

extern int snap_phase; void snap_trap(void); void snap_write(void); int snap_heap_ok(void);

int tno; unsigned char h[8];                   /* inputs */
int ok, ntok, where;                           /* outputs */

static Context_T* ctx; static File_T* templates;
static void* unwind[5]; static int errors;
static char text[512]; static int ntext;

void __real_throw_error(Context_T*, ErrorType_T, Token_T*, const char*, ...);
void __wrap_throw_error(Context_T* c, ErrorType_T ty, Token_T* t, const char* m, ...) {
    if(!snap_phase) { __real_throw_error(c, ty, t, "%s", m); return; }
    if(ty == ERR_SYNTAX_WARNING || ty == ERR_TYPE_CAST_WARN || ty == ERR_CODEGEN_WARN || ty == ERR_CONSTEXPR_WARN || ty == ERR_UNUSED || ty == ERR_DEPRECATED || ty == ERR_UNREACHABLE) return;
    errors++;
    __builtin_longjmp(unwind, 1);
}
/* numbers written with a format: character 1 + slot */
static unsigned long slot[16]; static int nslot;
static int out(char* d, const char* f, va_list va) {
    char* b = d;
    for(; *f; f++) {
        if(*f != '%') { *d++ = *f; continue; }
        int l = 0; f++;
        while(*f == 'l' || *f == 'z' || *f == 'j') { l = 1; f++; }
        if((*f != 'd' && *f != 'i' && *f != 'u') || nslot == 15) snap_trap();
        slot[nslot] = l ? va_arg(va, unsigned long) : *f == 'u' ? va_arg(va, unsigned) : (long) va_arg(va, int);
        *d++ = 1 + nslot++;
    }
    *d = 0;
    return d - b;
}
int __real_vsprintf(char*, const char*, va_list);
int __wrap_sprintf(char* d, const char* f, ...) { va_list va; va_start(va, f); int r = snap_phase ? out(d, f, va) : vsprintf(d, f, va); va_end(va); return r; }
int __wrap_snprintf(char* d, size_t n, const char* f, ...) { va_list va; va_start(va, f); int r = snap_phase ? out(d, f, va) : vsnprintf(d, n, f, va); va_end(va); return r; }

i32 __wrap_lexer_pass(Context_T* context, ASTProg_T* ast) {
    ctx = context; templates = ast->files->items[0];
    snap_write();
    return 1;
}

/* ------------------------------------------------------------ the second lexer, on the text as a whole */
static int P;
static struct { int type, len, line, num; char s[128]; unsigned long v; } T;
enum { ERROR = -2 };
static int at(int i) { i += P; return i < ntext ? (unsigned char) text[i] : 0; }
static int digit(int c) { return c >= '0' && c <= '9'; }
static int letter(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int op(int c) { return c && strchr("+-*/%=&^<>|!?.:~", c); }
static int hexval(int c) { return digit(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
static void put(int c) { if(T.len < 127) T.s[T.len++] = c; }

static const struct { const char* s; int t; } words[] = {
    {"alignof", TOKEN_ALIGNOF}, {"asm", TOKEN_ASM}, {"break", TOKEN_BREAK}, {"const", TOKEN_CONST}, {"continue", TOKEN_CONTINUE}, {"defer", TOKEN_DEFER},
    {"do", TOKEN_DO}, {"dyn", TOKEN_DYN}, {"else", TOKEN_ELSE}, {"embed", TOKEN_EMBED}, {"enum", TOKEN_ENUM}, {"extern", TOKEN_EXTERN}, {"false", TOKEN_FALSE},
    {"fn", TOKEN_FN}, {"for", TOKEN_FOR}, {"if", TOKEN_IF}, {"import", TOKEN_IMPORT}, {"interface", TOKEN_INTERFACE}, {"len", TOKEN_LEN}, {"let", TOKEN_LET},
    {"loop", TOKEN_LOOP}, {"macro", TOKEN_MACRO}, {"match", TOKEN_MATCH}, {"namespace", TOKEN_NAMESPACE}, {"nil", TOKEN_NIL}, {"noop", TOKEN_NOOP},
    {"operator", TOKEN_OPERATOR_KW}, {"ret", TOKEN_RETURN}, {"sizeof", TOKEN_SIZEOF}, {"struct", TOKEN_STRUCT}, {"true", TOKEN_TRUE}, {"type", TOKEN_TYPE},
    {"typeof", TOKEN_TYPEOF}, {"union", TOKEN_UNION}, {"unless", TOKEN_UNLESS}, {"using", TOKEN_USING}, {"while", TOKEN_WHILE}, {"with", TOKEN_WITH}, {0, 0}
};

static int next(void) {
    T.len = 0; T.num = 0;
    for(;;) {                                   /* white space and comments */
        int c = at(0);
        if(c == ' ' || c == '\t' || c == '\r' || c == '\n') P++;
        else if(c == '#' && at(1) == '[') {
            int depth = 0;
            do {
                if(P >= ntext) return ERROR;
                if(at(0) == '#' && at(1) == '[') depth++, P += 2;
                else if(at(0) == ']' && at(1) == '#') depth--, P += 2;
                else P++;
            } while(depth);
        }
        else if(c == '#') { while(P < ntext && at(0) != '\n') P++; }
        else break;
    }
    if(P >= ntext) return TOKEN_EOF;
    T.line = P;
    int c = at(0);
    if(letter(c) || (c == '_' && (at(1) == '_' || letter(at(1)) || digit(at(1))))) {
        for(; letter(c) || digit(c) || c == '_' || c == '?' || c == '\''; c = at(0)) put(c), P++;
        if(c == '!') { P++; return TOKEN_MACRO_CALL; }
        for(int i = 0; words[i].s; i++) if((int) strlen(words[i].s) == T.len && !memcmp(words[i].s, T.s, T.len)) return words[i].t;
        return TOKEN_ID;
    }
    if(digit(c)) {
        int base = c != '0' ? 10 : at(1) == 'x' ? 16 : at(1) == 'b' ? 2 : at(1) == 'o' ? 8 : 10;
        if(base != 10) {
            unsigned long v = 0;
            for(P += 2; hexval(at(0)) < base || at(0) == '_'; P++) if(at(0) != '_') v = v * base + hexval(at(0));
            T.num = 1; T.v = v;
            return TOKEN_INT;
        }
        int dots = 0;
        for(; digit(c) || c == '_' || (c == '.' && at(1) != '.'); c = at(0)) { if(c != '_') put(c); if(c == '.' && dots++) return ERROR; P++; }
        T.num = 2;
        return dots ? TOKEN_FLOAT : TOKEN_INT;
    }
    if(c == '"') {
        for(P++; at(0) != '"'; P++) { if(P >= ntext) return ERROR; if(at(0) == '\\') put(at(0)), P++; if(P >= ntext) return ERROR; put(at(0)); }
        P++;
        return TOKEN_STRING;
    }
    if(c == '\'') {
        P++;
        if(at(0) == '\'') return ERROR;
        if((at(0) == 'c' || at(0) == 'C') && at(1) != '\'') { put('\''); put(at(0)); P++; return TOKEN_C_ARRAY; }
        if(at(0) == '\\') put(at(0)), P++;
        if(P >= ntext) return ERROR;
        put(at(0)); P++;
        if(at(0) != '\'') return ERROR;
        P++;
        return TOKEN_CHAR;
    }
    if(op(c)) {
        for(; op(c); c = at(0)) put(c), P++;
        if(T.len == 3 && T.s[0] == '.' && T.s[1] == '.' && T.s[2] == '.') return TOKEN_VA_LIST;
        if(T.len == 2 && T.s[0] == '<' && T.s[1] == '-') return TOKEN_RETURN;
        if(T.len == 2 && T.s[0] == '=' && T.s[1] == '>') return TOKEN_ARROW;
        return TOKEN_OPERATOR;
    }
    put(c); P++;
    switch(c) {
        case '(': return TOKEN_LPAREN; case ')': return TOKEN_RPAREN; case '{': return TOKEN_LBRACE; case '}': return TOKEN_RBRACE;
        case '[': return TOKEN_LBRACKET; case ']': return TOKEN_RBRACKET; case ',': return TOKEN_COMMA; case ';': return TOKEN_SEMICOLON;
        case '_': return TOKEN_UNDERSCORE; case '$': return TOKEN_DOLLAR; case '@': return TOKEN_AT; case '`': return TOKEN_INFIX_CALL;
        case 0xc2: if(at(0) == 0xb2) { put(0xb2); P++; return TOKEN_POW_2; } if(at(0) == 0xb3) { put(0xb3); P++; return TOKEN_POW_3; } return ERROR;
        case 0xcd: if(at(0) == 0xbe) { put(0xbe); P++; return TOKEN_SEMICOLON; } return ERROR;
    }
    return ERROR;
}

static int line_of(int p) { int n = 0; for(int i = 0; i < p && i < ntext; i++) if(text[i] == '\n') n++; return n; }

static Lexer_T lx; static Token_T* cur;
static int real_next(void) {
    if(__builtin_setjmp(unwind)) return 0;
    cur = lexer_next_token(&lx);
    return 1;
}
void run_lex(void) {
    ntext = P = nslot = 0;
    /* the text: lines as they are in a file */
    const char* t = templates->lines->items[tno];
    List_T* lines = init_list();
    char* l = 0; int n = 0;
    for(int i = 0; t[i]; i++) {
        int c = (unsigned char) t[i];
        if(c == '\n') break;
        if(c <= 8) c = h[c - 1]; else if(c == 14) c = '\n';
        if(!l) { l = calloc(256, 1); list_push(lines, l); n = 0; }
        text[ntext++] = c; l[n++] = c;
        if((unsigned char) t[i] == 14) l = 0;
    }
    File_T* f = init_file(lines, "p.csp");
    init_lexer(&lx, ctx, f);
    ok = ntok = 0;
    for(;;) {
        int e = next();
        nslot = 0;
        if(!real_next()) { ok = e == ERROR; break; }
        if(e == ERROR) break;
        where = P;
        if((int) cur->type != e) break;
        if(e == TOKEN_EOF) { ok = 1; break; }
        if(cur->source != f || (int) cur->line < line_of(T.line) || (int) cur->line > line_of(P - 1)) break;
        char* s = cur->value;
        if(T.num == 1) { if(*s < 1 || *s > nslot || s[1] || slot[*s - 1] != T.v) break; }
        else {
            int i = 0;
            for(; i < T.len && s[i] == T.s[i] && s[i]; i++);
            if(i < T.len) break;
            if(T.num == 2 && s[i] == '.') i++;
            if(s[i]) break;
        }
        ntok++;
    }
    if(!snap_heap_ok()) ok = 0;
}
