/* native.c: map the segments of a static ELF at their addresses and call one of
 * its functions on this machine.  Input (stdin), one item per line:
 *   elf PATH | poke ADDR HEX | map ADDR LEN | call ADDR | arg I VALUE | farg I HEX64 |
 *   sarg VALUE | dump ADDR LEN | go
 * Output: rax/rdx/xmm0/xmm1/st0 after the call, and the dumps. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <elf.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <stddef.h>
#include <ucontext.h>
#include <linux/seccomp.h>
#include <linux/filter.h>

static uint64_t iargs[6], sargs[64], fargs[8][2], target; static int nsargs;
uint64_t out[8]; static unsigned char st0[16];
struct { uint64_t a, n; } dumps[512]; static int ndumps;

static void load(const char* path) {
    int fd = open(path, O_RDONLY); struct stat sb;
    if(fd < 0 || fstat(fd, &sb)) { perror(path); exit(90); }
    char* d = malloc(sb.st_size);
    for(off_t o = 0; o < sb.st_size;) { ssize_t r = read(fd, d + o, sb.st_size - o); if(r <= 0) exit(91); o += r; }
    Elf64_Ehdr* e = (void*) d;
    for(int i = 0; i < e->e_phnum; i++) {
        Elf64_Phdr* p = (void*) (d + e->e_phoff + i * e->e_phentsize);
        if(p->p_type != PT_LOAD || !p->p_memsz) continue;
        uint64_t lo = p->p_vaddr & ~4095ull, hi = (p->p_vaddr + p->p_memsz + 4095) & ~4095ull;
        void* m = mmap((void*) lo, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if(m == MAP_FAILED) { perror("mmap"); exit(92); }
        memcpy((void*) p->p_vaddr, d + p->p_offset, p->p_filesz);
        mprotect((void*) lo, hi - lo, PROT_READ | (p->p_flags & PF_W ? PROT_WRITE : 0) | (p->p_flags & PF_X ? PROT_EXEC : 0));
    }
    free(d); close(fd);
}
/* scripted system calls: the program's own calls (from its segments below 4 GB) trap and are answered
 * from the script ("sys NR RET [ARG HEX]..."), in order per number; numbers without script are passed on */
static struct { long nr; uint64_t ret; int nout; int rarg; long rn; struct { int arg; unsigned char* d; size_t n; } out[4]; int used; } scr[64]; static int nscr;
static char* slog_; static size_t slen, scap;
static void logf_(const char* f, uint64_t v) { char b[64]; int n = snprintf(b, sizeof b, f, v); if(slen + n < scap) { memcpy(slog_ + slen, b, n); slen += n; } }
static void trap(int sig, siginfo_t* si, void* uc) {
    greg_t* g = ((ucontext_t*) uc)->uc_mcontext.gregs; long nr = (uint32_t) g[REG_RAX]; int known = 0;
    uint64_t a[6] = { g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9] };
    if(nr == 60 || nr == 231) _exit((int) a[0]);
    for(int i = 0; i < nscr; i++) {
        if(scr[i].nr != nr) continue;
        known = 1; if(scr[i].used) continue;
        scr[i].used = 1;
        logf_("SYS %lx", nr); for(int k = 0; k < 6; k++) logf_(" %lx", a[k]);
        logf_(" ", 0); if(nr == 1) for(uint64_t k = 0; k < a[2]; k++) logf_("%02lx", ((unsigned char*) a[1])[k]); else if(scr[i].rn) for(long k = 0; k < scr[i].rn; k++) logf_("%02lx", ((unsigned char*) a[scr[i].rarg])[k]); else logf_("-", 0);
        logf_("\n", 0);
        for(int o = 0; o < scr[i].nout; o++) if(a[scr[i].out[o].arg]) memcpy((void*) a[scr[i].out[o].arg], scr[i].out[o].d, scr[i].out[o].n);
        g[REG_RAX] = scr[i].ret; return;
    }
    if(known) _exit(96);
    long r = syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    g[REG_RAX] = r == -1 ? -(long) *__errno_location() : r;
}
static void arm(void) {
    slog_ = malloc(scap = 1 << 20);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, 0);
    struct sock_filter f[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 0, 0, 1),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW) };
    struct sock_fprog pr = { 4, f };
    if(prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) { perror("seccomp"); _exit(94); }
}
static int hx(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

struct ctx { uint64_t *ia, (*fa)[2], *sa, ns, tg, *ou; } cx;
void callit(struct ctx*);
__asm__(
    ".text\ncallit:\n\t"
    "push %rbp\n\tpush %rbx\n\tpush %r12\n\tpush %r13\n\tpush %r14\n\tpush %r15\n\t"
    "mov %rsp, saved_rsp(%rip)\n\tmov %rdi, %rbx\n\t"
    "sub $0x88, %rsp\n\tand $-16, %rsp\n\t"
    "mov 24(%rbx), %rcx\n\tmov 16(%rbx), %rax\n\t"
    "test $1, %cl\n\tjz 0f\n\tsub $8, %rsp\n\t0:\n\t"
    "1: test %rcx, %rcx\n\tjz 2f\n\tdec %rcx\n\tpush (%rax,%rcx,8)\n\tjmp 1b\n\t2:\n\t"
    "mov 8(%rbx), %rax\n\t"
    "movdqu 0(%rax), %xmm0\n\tmovdqu 16(%rax), %xmm1\n\tmovdqu 32(%rax), %xmm2\n\tmovdqu 48(%rax), %xmm3\n\t"
    "movdqu 64(%rax), %xmm4\n\tmovdqu 80(%rax), %xmm5\n\tmovdqu 96(%rax), %xmm6\n\tmovdqu 112(%rax), %xmm7\n\t"
    "mov 32(%rbx), %r11\n\tmov (%rbx), %rbx\n\t"
    "mov 0(%rbx), %rdi\n\tmov 8(%rbx), %rsi\n\tmov 16(%rbx), %rdx\n\tmov 24(%rbx), %rcx\n\tmov 32(%rbx), %r8\n\tmov 40(%rbx), %r9\n\t"
    "mov $8, %eax\n\tcld\n\tcall *%r11\n\t"
    "lea out(%rip), %r13\n\t"
    "mov %rax, 0(%r13)\n\tmov %rdx, 8(%r13)\n\tmovq %xmm0, 16(%r13)\n\tmovq %xmm1, 24(%r13)\n\t"
    "mov saved_rsp(%rip), %rsp\n\tpop %r15\n\tpop %r14\n\tpop %r13\n\tpop %r12\n\tpop %rbx\n\tpop %rbp\n\tret\n"
    ".bss\nsaved_rsp: .zero 8\n.text\n");

/* single steps: is the stack aligned to 16 bytes at every call? */
static int steps; static uint64_t last;
static void step(int sig, siginfo_t* si, void* uc) {
    greg_t* g = ((ucontext_t*) uc)->uc_mcontext.gregs;
    if(last && last < 0x100000000) {
        unsigned char* p = (unsigned char*) last;
        while((*p & 0xf0) == 0x40 || *p == 0x66 || *p == 0xf2 || *p == 0xf3 || *p == 0x2e || *p == 0x3e || *p == 0x64 || *p == 0x65) p++;
        if((*p == 0xe8 || (*p == 0xff && (p[1] >> 3 & 7) == 2)) && (g[REG_RSP] & 15) != 8) { signal(SIGABRT, SIG_DFL); abort(); }
    }
    last = g[REG_RIP];
}
static void stepping(int on) {
    if(!steps) return;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = step; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0);
    if(on) __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc"); else __asm__ volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc");
}

int main(void) {
    static char line[1 << 20], a[1 << 19]; uint64_t x, y;
    for(int i = 0; i < 8; i++) fargs[i][0] = 0x4049505142495051 + i, fargs[i][1] = 0x4049505142495053 + i;     /* (registers that are no arguments) */
    while(fgets(line, sizeof line, stdin)) {
        if(sscanf(line, "elf %s", a) == 1) load(a);
        else if(sscanf(line, "poke %lx %s", &x, a) == 2) for(char* p = a; *p && *p != '-'; p += 2) *(unsigned char*) x++ = hx(p[0]) << 4 | hx(p[1]);
        else if(sscanf(line, "map %lx %lx", &x, &y) == 2) { if(mmap((void*) x, y, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("map"); exit(93); } }
        else if(sscanf(line, "call %lx", &x) == 1) target = x;
        else if(sscanf(line, "arg %lu %lx", &x, &y) == 2) iargs[x] = y;
        else if(sscanf(line, "farg %lu %lx", &x, &y) == 2) fargs[x][0] = y;
        else if(sscanf(line, "sarg %lx", &y) == 1) sargs[nsargs++] = y;
        else if(sscanf(line, "dump %lx %lx", &x, &y) == 2) { dumps[ndumps].a = x; dumps[ndumps++].n = y; }
        else if(!strncmp(line, "sys ", 4)) {
            char* q = strtok(line + 4, " \n"); scr[nscr].nr = strtol(q, 0, 16); scr[nscr].ret = strtoul(strtok(0, " \n"), 0, 16);
            while((q = strtok(0, " \n"))) {
                if(*q == 'r') { scr[nscr].rarg = atoi(q + 1); scr[nscr].rn = atol(strtok(0, " \n")); continue; }
                int o = scr[nscr].nout++; scr[nscr].out[o].arg = atoi(q); q = strtok(0, " \n"); size_t n = *q == '-' ? 0 : strlen(q) / 2;
                unsigned char* d = malloc(n + 1); for(size_t k = 0; k < n; k++) d[k] = hx(q[2 * k]) << 4 | hx(q[2 * k + 1]);
                scr[nscr].out[o].d = d; scr[nscr].out[o].n = n;
            }
            nscr++;
        }
        else if(!strncmp(line, "align", 5)) steps = 1;
        else if(!strncmp(line, "go", 2)) break;
        else { fprintf(stderr, "bad line %s", line); exit(94); }
    }
    alarm(10);
    if(nscr) arm();
    cx = (struct ctx){ iargs, fargs, sargs, nsargs, target, out }; stepping(1); callit(&cx); stepping(0);
    alarm(0);
    if(slen) fwrite(slog_, 1, slen, stdout);
    printf("\nRESULT rax=%lx rdx=%lx xmm0=%lx xmm1=%lx\n", out[0], out[1], out[2], out[3]);
    for(int i = 0; i < ndumps; i++) {
        printf("DUMP %lx ", dumps[i].a);
        for(uint64_t k = 0; k < dumps[i].n; k++) printf("%02x", ((unsigned char*) dumps[i].a)[k]);
        printf("\n");
    }
    fflush(stdout);
    _exit(0);
}
