/* snap.c: linked with all of the compiler's C files.  main() runs the compiler's own main on a command line up to the code
 * generator, on a stack and heap that lie in .bss, prepares the harness and writes the data segment into a file: the harness
 * functions are then executed symbolically from that state. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <ucontext.h>

int snap_phase = 0;
void snap_trap(void) { __builtin_trap(); }

/* ------------------------------------------------------------ heap and string functions without vector code */
static char heap[192 << 20] __attribute__((aligned(4096)));
static size_t heap_top = 64;
static size_t heap_start;      /* blocks from here on were allocated in the symbolic phase and have a guard behind them */
void* malloc(size_t n) {
    size_t* p = (size_t*) (heap + heap_top), r = (n + 15) & ~(size_t) 15;
    if(heap_top + r + 48 > sizeof heap) __builtin_trap();
    heap_top += r + 32; p[1] = n;
    if(snap_phase) for(size_t i = n; i < r + 16; i++) ((char*) (p + 2))[i] = 0x5a;
    return p + 2;
}
int snap_heap_ok(void) {
    int ok = 1;
    for(size_t a = heap_start; a < heap_top;) {
        size_t* p = (size_t*) (heap + a), n = p[1], r = (n + 15) & ~(size_t) 15;
        for(size_t i = n; i < r + 16; i++) ok &= ((char*) (p + 2))[i] == 0x5a;
        a += r + 32;
    }
    return ok;
}
void free(void* p) {}
void* calloc(size_t a, size_t b) { return malloc(a * b); }       /* (fresh memory of .bss is zero) */
void* realloc(void* p, size_t n) { if(!p) return malloc(n); size_t o = ((size_t*) p)[-1]; if(n <= o) return p; char* q = malloc(n); for(size_t i = 0; i < o; i++) q[i] = ((char*) p)[i]; return q; }
void* memalign(size_t a, size_t n) { heap_top = ((heap_top + 16 + a - 1) & ~(a - 1)) - 16; return malloc(n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { *p = memalign(a, n); return 0; }
void* memcpy(void* d, const void* s, size_t n) { for(size_t i = 0; i < n; i++) ((char*) d)[i] = ((const char*) s)[i]; return d; }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*) d + n; }
void* memmove(void* d, const void* s, size_t n) { char* a = d; const char* b = s; if(a < b) for(size_t i = 0; i < n; i++) a[i] = b[i]; else while(n--) a[n] = b[n]; return d; }
void* memset(void* d, int c, size_t n) { for(size_t i = 0; i < n; i++) ((char*) d)[i] = c; return d; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = a, *y = b; for(size_t i = 0; i < n; i++) if(x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
size_t strlen(const char* s) { size_t n = 0; while(s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while(*a && *a == *b) a++, b++; return (unsigned char) *a - (unsigned char) *b; }
int strncmp(const char* a, const char* b, size_t n) { for(; n; n--, a++, b++) { if(*a != *b) return (unsigned char) *a - (unsigned char) *b; if(!*a) break; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while((*d++ = *s++)); return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for(; i < n && s[i]; i++) d[i] = s[i]; for(; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for(; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char* strchr(const char* s, int c) { for(;; s++) { if(*s == (char) c) return (char*) s; if(!*s) return 0; } }
char* strdup(const char* s) { char* d = malloc(strlen(s) + 1); return strcpy(d, s); }
char* strndup(const char* s, size_t n) { size_t l = 0; while(l < n && s[l]) l++; char* d = malloc(l + 1); memcpy(d, s, l); d[l] = 0; return d; }

/* character classes without tables (the sources are compiled with -D__NO_CTYPE) */
int isdigit(int c) { return (unsigned) (c - '0') < 10; }
int islower(int c) { return (unsigned) (c - 'a') < 26; }
int isupper(int c) { return (unsigned) (c - 'A') < 26; }
int isalpha(int c) { return (unsigned) ((c | 32) - 'a') < 26; }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | ((unsigned) ((c | 32) - 'a') < 6); }
int isspace(int c) { return (c == ' ') | ((unsigned) (c - 9) < 5); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isprint(int c) { return (unsigned) (c - 32) < 95; }
int isgraph(int c) { return (unsigned) (c - 33) < 94; }
int iscntrl(int c) { return ((unsigned) c < 32) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
unsigned long snap_strtoul(const char* s, char** e, int base) __asm__("strtoul");
unsigned long snap_strtoul(const char* s, char** e, int base) {
    const char* p = s; unsigned long v = 0; int neg = 0, any = 0;
    while(isspace(*p)) p++;
    if(*p == '-' || *p == '+') neg = *p++ == '-';
    if((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit(p[2])) p += 2, base = 16;
    if(base == 0) base = *p == '0' ? 8 : 10;
    for(;; p++) {
        unsigned c = (unsigned char) *p, d = isdigit(c) ? c - '0' : isalpha(c) ? (c | 32) - 'a' + 10 : 99;
        if(d >= (unsigned) base) break;
        v = v * base + d; any = 1;
    }
    if(e) *e = (char*) (any ? p : s);
    return neg ? -v : v;
}
#define ALIAS(n) unsigned long snap_##n(const char* s, char** e, int base) __asm__(#n); unsigned long snap_##n(const char* s, char** e, int base) { return snap_strtoul(s, e, base); }
ALIAS(strtoull) ALIAS(strtol) ALIAS(strtoll) ALIAS(__isoc23_strtoull) ALIAS(__isoc23_strtoul) ALIAS(__isoc23_strtol) ALIAS(__isoc23_strtoll)

/* ------------------------------------------------------------ output and errors: a trap once the symbolic phase has begun */
int snap_quiet = 0;             /* 1: output in that phase is dropped instead */
#define FWD(name, args, call) int name args { if(snap_phase) { if(!snap_quiet) snap_trap(); return 0; } va_list va; va_start(va, f); int r = call; va_end(va); return r; }
FWD(__wrap_fprintf, (FILE* o, const char* f, ...), vfprintf(o, f, va))
FWD(__wrap_printf, (const char* f, ...), vprintf(f, va))
int __real_fputc(int, FILE*); int __wrap_fputc(int c, FILE* f) { if(snap_phase) { if(!snap_quiet) snap_trap(); return c; } return __real_fputc(c, f); }
void __real_exit(int) __attribute__((noreturn)); void __wrap_exit(int c) { if(snap_phase) snap_trap(); __real_exit(c); }
void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* n) { if(!snap_phase) fprintf(stderr, "assertion %s failed at %s:%u\n", e, f, l); snap_trap(); }

/* ------------------------------------------------------------ start */
static char stack[1 << 20] __attribute__((aligned(4096)));
static ucontext_t back, run;
static int g_argc; static char** g_argv; static const char* g_out;
int cspc_main(int, char**);
static void start(void) { cspc_main(g_argc, g_argv); }
void snap_write(void) {
    /* everything from the first writable address to the used end of the heap */
    snap_phase = 1; heap_start = heap_top;
    int fd = open(g_out, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    FILE* m = fopen("/proc/self/maps", "r"); char line[512];
    while(fgets(line, sizeof line, m)) {
        unsigned long lo, hi; char p[8];
        if(sscanf(line, "%lx-%lx %7s", &lo, &hi, p) != 3 || hi > 0x40000000 || strchr(p, 'x')) continue;
        unsigned long end = hi;
        unsigned long hend = ((unsigned long) heap + heap_top + 4095) & ~4095ul, slo = (unsigned long) stack, shi = slo + sizeof stack;
        /* the unused rest of the heap is left out */
        unsigned long cut_lo = hend + (1 << 18), cut_hi = (unsigned long) heap + sizeof heap;
        for(unsigned long a = lo; a < end; a += 4096) {
            if(a >= cut_lo && a < cut_hi) continue;
            unsigned long h[2] = { a, p[1] == 'w' };
            write(fd, h, sizeof h); write(fd, (void*) a, 4096);
        }
    }
    fclose(m); close(fd);
    _exit(0);
}
int main(int argc, char** argv) {
    g_out = strdup(argv[1]);
    g_argc = argc - 1; g_argv = malloc(8 * argc);
    for(int i = 1; i < argc; i++) g_argv[i - 1] = strdup(argv[i]);
    g_argv[0] = "cspc"; g_argv[g_argc] = 0;
    getcontext(&run); run.uc_stack.ss_sp = stack; run.uc_stack.ss_size = sizeof stack; run.uc_link = &back;
    makecontext(&run, start, 0); swapcontext(&back, &run);
    return 7;
}
