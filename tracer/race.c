/* race: run two programs under ptrace and decide, call by call, which of them goes on.
 *
 *   race --log FILE --root DIR [--private PATH]... [--watch PATH]... [--out PATH] [--first N] [--at STEP:KIND]...
 *        -- PROGRAM ARG... --- PROGRAM ARG...
 *
 * A point is a system call that names a path below DIR or a relative path, or uses a descriptor of such a
 * file; calls on the --private paths (which nothing changes), reads of a single byte and all other calls are no
 * points. Only one
 * program runs at a time. Both are first run to their first point. A step lets one program do the call it is
 * at and go on to its next point or its end.
 *
 *   --first N       the program that makes the first step (0 or 1)
 *   --at STEP:s     at this step the other program goes on instead
 *   --at STEP:k     at this step the program whose turn it is is killed, before its call
 *   --at STEP:f     at this step the call of the program whose turn it is fails (EIO) and is not made
 *
 *   --same-pid      each program in a process id namespace of its own, in which its process id is 1 (as in
 *                   two containers that share a directory); exit status 4 if that cannot be had here
 *
 * Without those the same program goes on until it ends.
 *
 * The log has "start K NAME PATH" for the point at which each program first stops, "step S P NAME PATH" for
 * every step (P: the program, and the call it makes), "state S W HEX" or "state S W -" whenever the content
 * of the watched file number W is found changed after step S ("-": there is none), "exit P N", "signal P N",
 * "blocked P" when a program waits for the other, and "end" as the last line.
 * Standard output of program 0 goes to PATH of the first --out, of program 1 to that of the second.
 * Exit status: 0, or 3 when something is wrong with the tracer itself.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sched.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

/* name, number, index of a path argument, of a second one, of a descriptor (-1: none) */
static const struct sc { const char *name; long nr; int path, path2, fd; } table[] = {
    {"open", SYS_open, 0, -1, -1}, {"openat", SYS_openat, 1, -1, -1}, {"openat2", SYS_openat2, 1, -1, -1}, {"creat", SYS_creat, 0, -1, -1},
    {"read", SYS_read, -1, -1, 0}, {"pread", SYS_pread64, -1, -1, 0}, {"readv", SYS_readv, -1, -1, 0}, {"preadv", SYS_preadv, -1, -1, 0},
    {"write", SYS_write, -1, -1, 0}, {"pwrite", SYS_pwrite64, -1, -1, 0}, {"writev", SYS_writev, -1, -1, 0}, {"pwritev", SYS_pwritev, -1, -1, 0},
    {"copy_file_range", SYS_copy_file_range, -1, -1, 2}, {"sendfile", SYS_sendfile, -1, -1, 0}, {"splice", SYS_splice, -1, -1, 2},
    {"rename", SYS_rename, 0, 1, -1}, {"renameat", SYS_renameat, 1, 3, -1}, {"renameat2", SYS_renameat2, 1, 3, -1},
    {"unlink", SYS_unlink, 0, -1, -1}, {"unlinkat", SYS_unlinkat, 1, -1, -1}, {"rmdir", SYS_rmdir, 0, -1, -1},
    {"stat", SYS_stat, 0, -1, -1}, {"lstat", SYS_lstat, 0, -1, -1}, {"fstat", SYS_fstat, -1, -1, 0}, {"newfstatat", SYS_newfstatat, 1, -1, 0}, {"statx", SYS_statx, 1, -1, 0},
    {"access", SYS_access, 0, -1, -1}, {"faccessat", SYS_faccessat, 1, -1, -1}, {"faccessat2", SYS_faccessat2, 1, -1, -1},
    {"chmod", SYS_chmod, 0, -1, -1}, {"fchmod", SYS_fchmod, -1, -1, 0}, {"fchmodat", SYS_fchmodat, 1, -1, -1},
    {"chown", SYS_chown, 0, -1, -1}, {"fchown", SYS_fchown, -1, -1, 0}, {"fchownat", SYS_fchownat, 1, -1, -1}, {"lchown", SYS_lchown, 0, -1, -1},
    {"truncate", SYS_truncate, 0, -1, -1}, {"ftruncate", SYS_ftruncate, -1, -1, 0}, {"fallocate", SYS_fallocate, -1, -1, 0},
    {"link", SYS_link, 0, 1, -1}, {"linkat", SYS_linkat, 1, 3, -1}, {"symlink", SYS_symlink, 1, -1, -1}, {"symlinkat", SYS_symlinkat, 2, -1, -1},
    {"mkdir", SYS_mkdir, 0, -1, -1}, {"mkdirat", SYS_mkdirat, 1, -1, -1}, {"readlink", SYS_readlink, 0, -1, -1}, {"readlinkat", SYS_readlinkat, 1, -1, -1},
    {"getdents", SYS_getdents64, -1, -1, 0}, {"utimensat", SYS_utimensat, 1, -1, -1}, {"flock", SYS_flock, -1, -1, 0},
};

static const struct sc *lookup(long nr) {
    for (size_t i = 0; i < sizeof table / sizeof *table; i++)
        if (table[i].nr == nr) return &table[i];
    return NULL;
}

static pid_t pids[2];
static void die(const char *what) {
    fprintf(stderr, "race: %s: %s\n", what, strerror(errno));
    for (int i = 0; i < 2; i++) if (pids[i] > 0) kill(pids[i], SIGKILL);
    exit(3);
}

static unsigned long long arg(struct user_regs_struct *r, int i) {
    switch (i) {
    case 0: return r->rdi;
    case 1: return r->rsi;
    case 2: return r->rdx;
    case 3: return r->r10;
    case 4: return r->r8;
    default: return r->r9;
    }
}

static void peek_string(pid_t pid, unsigned long long addr, char *buf, size_t size) {
    size_t n = 0;
    buf[0] = 0;
    while (addr && n + 1 < size) {
        char page[256];
        size_t want = 256 - addr % 256;
        struct iovec l = {page, want}, r = {(void *)addr, want};
        ssize_t got = process_vm_readv(pid, &l, 1, &r, 1, 0);
        if (got <= 0) break;
        for (ssize_t i = 0; i < got && n + 1 < size; i++) {
            buf[n++] = page[i];
            if (!page[i]) return;
        }
        addr += got;
    }
    buf[n] = 0;
}

static const char *logname, *root, *outs[2];
static const char *private[8], *watch[8];
static int nprivate, nwatch, nouts;
static struct { long step; char kind; } at[64];
static int nat;
static FILE *lg;

static int is_private(const char *p) {
    for (int i = 0; i < nprivate; i++) if (!strcmp(private[i], p)) return 1;
    return 0;
}

/* state of a program */
static struct { int alive, in, blocked, filtered; char point[8200]; } st[2];
static int same_pid;

static int relevant(const char *p) {
    return p[0] && !is_private(p) && (p[0] != '/' || !strncmp(p, root, strlen(root)));
}

/* whether the call a program is at is a point; its description */
static int point(int p) {
    struct user_regs_struct r;
    if (ptrace(PTRACE_GETREGS, pids[p], 0, &r)) return 0;
    const struct sc *sc = lookup(r.orig_rax);
    if (!sc) return 0;
    char path[4096] = "", two[2048] = "";
    if (sc->path >= 0) peek_string(pids[p], arg(&r, sc->path), path, sizeof path);
    if (sc->path2 >= 0) peek_string(pids[p], arg(&r, sc->path2), two, sizeof two);
    int yes = relevant(path) || relevant(two);
    if (!yes && sc->fd >= 0 && !path[0]) {
        char name[64];
        int fd = (int)arg(&r, sc->fd);
        if (fd < 0) return 0;
        snprintf(name, sizeof name, "/proc/%d/fd/%d", pids[p], fd);
        ssize_t n = readlink(name, path, sizeof path - 1);
        path[n > 0 ? n : 0] = 0;
        yes = relevant(path) && path[0] == '/';
    }
    if (!yes) return 0;
    /* names made up for temporary files differ from run to run; nothing depends on them */
    snprintf(st[p].point, sizeof st[p].point, "%s %s%s%s", sc->name, path, two[0] ? " -> " : "", two);
    for (char *c = st[p].point; *c; c++) if (*c == '\n') *c = '?';
    return 1;
}

static double now(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static int asleep(pid_t pid) {
    char name[64], line[512];
    snprintf(name, sizeof name, "/proc/%d/stat", pid);
    FILE *f = fopen(name, "re");
    if (!f) return 0;
    size_t n = fread(line, 1, sizeof line - 1, f);
    fclose(f);
    line[n] = 0;
    char *e = strrchr(line, ')');
    return e && (e[2] == 'S' || e[2] == 'D');
}

/* waits for the next stop of a program: 0, or 1 when it sleeps in a call that does not return */
static int wait_stop(int p, int *status) {
    double start = 0;
    long spin = 0;
    for (;;) {
        pid_t got = waitpid(pids[p], status, __WALL | (spin < 0 ? 0 : WNOHANG));
        if (got == pids[p]) return 0;
        if (got < 0 && errno != EINTR) die("wait");
        if (!start) start = now();
        if (++spin > 2000) usleep(200);
        if (spin % 512 == 0 && now() - start > 1.0 && asleep(pids[p])) return 1;
        if (spin % 512 == 0 && now() - start > 50) { errno = ETIME; die("a program does not end"); }
    }
}

/* lets a program run to its next point or its end */
static void go(int p) {
    if (st[p].blocked) {
        st[p].blocked = 0; /* it has been resumed before */
    } else if (ptrace(st[p].filtered ? PTRACE_CONT : PTRACE_SYSCALL, pids[p], 0, 0)) die("ptrace");
    for (;;) {
        int s;
        if (wait_stop(p, &s)) {
            st[p].blocked = 1;
            fprintf(lg, "blocked %d\n", p);
            return;
        }
        if (WIFEXITED(s) || WIFSIGNALED(s)) {
            st[p].alive = 0;
            fprintf(lg, WIFEXITED(s) ? "exit %d %d\n" : "signal %d %d\n", p, WIFEXITED(s) ? WEXITSTATUS(s) : WTERMSIG(s));
            return;
        }
        int sig = WSTOPSIG(s), deliver = 0;
        if (sig == (SIGTRAP | 0x80)) {
            st[p].in = !st[p].in;
            if (st[p].in && point(p)) return;
        } else if (s >> 8 == (SIGTRAP | (PTRACE_EVENT_SECCOMP << 8))) {
            if (point(p)) return;
        } else if (sig != SIGTRAP && !(s >> 16)) deliver = sig;
        if (ptrace(st[p].filtered ? PTRACE_CONT : PTRACE_SYSCALL, pids[p], 0, deliver)) die("ptrace");
    }
}

static char *seen[8];
static size_t seen_len[8];
static int seen_state[8]; /* 0: not looked at, 1: none, 2: a file */

static void look(long step) {
    for (int w = 0; w < nwatch; w++) {
        char *buf = NULL;
        size_t n = 0, cap = 0;
        int fd = open(watch[w], O_RDONLY | O_CLOEXEC), state = fd < 0 ? 1 : 2;
        if (fd >= 0) {
            for (;;) {
                if (n == cap && !(buf = realloc(buf, cap = cap ? cap * 2 : 4096))) die("memory");
                ssize_t g = read(fd, buf + n, cap - n);
                if (g <= 0) break;
                n += g;
            }
            close(fd);
        }
        if (seen_state[w] != state || seen_len[w] != n || (n && memcmp(seen[w], buf, n))) {
            fprintf(lg, "state %ld %d ", step, w);
            if (state == 1) fputc('-', lg);
            else for (size_t i = 0; i < n; i++) fprintf(lg, "%02x", (unsigned char)buf[i]);
            fputc('\n', lg);
            free(seen[w]);
            seen[w] = buf;
            seen_len[w] = n;
            seen_state[w] = state;
        } else free(buf);
    }
}

#define N_TABLE (sizeof table / sizeof *table)

/* only the calls of the table stop the program; returns whether that could be arranged */
static int filter(void) {
    struct sock_filter f[N_TABLE + 16];
    unsigned short n = 0;
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_read, 0, 4);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[2]));
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 1, 0, 1);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
    for (size_t i = 0; i < N_TABLE; i++)
        f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)table[i].nr, (unsigned char)(N_TABLE - i), 0);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
    struct sock_fprog prog = {n, f};
    return !prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) && !prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog, 0, 0);
}

static int no_filter;

static void start(int p, char **prog) {
    fflush(lg);
    pid_t c = syscall(SYS_clone, SIGCHLD | (same_pid ? CLONE_NEWUSER | CLONE_NEWPID : 0), 0, 0, 0, 0);
    if (c < 0) {
        if (same_pid) exit(4);
        die("fork");
    }
    if (!c) {
        if (outs[p]) {
            int fd = open(outs[p], O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd < 0 || dup2(fd, 1) < 0) _exit(127);
            if (fd != 1) close(fd);
        }
        if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(127);
        syscall(SYS_kill, syscall(SYS_getpid), SIGSTOP);
        if (!no_filter && !filter()) _exit(126);
        execv(prog[0], prog);
        _exit(127);
    }
    pids[p] = c;
    int s;
    if (waitpid(c, &s, __WALL) != c || !WIFSTOPPED(s)) { errno = ECHILD; die("start"); }
    if (ptrace(PTRACE_SETOPTIONS, c, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC | PTRACE_O_TRACESECCOMP))
        die("ptrace options");
    /* it stops again when the program has been loaded */
    if (ptrace(PTRACE_CONT, c, 0, 0)) die("ptrace");
    if (waitpid(c, &s, __WALL) != c) { errno = ECHILD; die("start"); }
    if (WIFEXITED(s) && WEXITSTATUS(s) == 126 && !no_filter) {
        no_filter = 1;
        start(p, prog);
        return;
    }
    if (!WIFSTOPPED(s)) { errno = ECHILD; die("start"); }
    st[p].filtered = !no_filter;
    st[p].alive = 1;
}

int main(int argc, char **argv) {
    int i, cur = 0;
    for (i = 1; i < argc && strcmp(argv[i], "--"); i++) {
        if (i + 1 >= argc) { errno = EINVAL; die("usage"); }
        if (!strcmp(argv[i], "--same-pid")) same_pid = 1;
        else if (!strcmp(argv[i], "--log")) logname = argv[++i];
        else if (!strcmp(argv[i], "--root")) root = argv[++i];
        else if (!strcmp(argv[i], "--private") && nprivate < 8) private[nprivate++] = argv[++i];
        else if (!strcmp(argv[i], "--watch") && nwatch < 8) watch[nwatch++] = argv[++i];
        else if (!strcmp(argv[i], "--out") && nouts < 2) outs[nouts++] = argv[++i];
        else if (!strcmp(argv[i], "--first")) cur = atoi(argv[++i]) != 0;
        else if (!strcmp(argv[i], "--at") && nat < 64) {
            char *end;
            at[nat].step = strtol(argv[++i], &end, 10);
            at[nat++].kind = end[1];
        } else { errno = EINVAL; die(argv[i]); }
    }
    int second = i + 1;
    while (second < argc && strcmp(argv[second], "---")) second++;
    if (!logname || !root || second + 1 >= argc) { errno = EINVAL; die("usage"); }
    argv[second] = NULL;
    char **progs[2] = {argv + i + 1, argv + second + 1};
    if (!(lg = fopen(logname, "we"))) die(logname);
    for (int p = 0; p < 2; p++) {
        start(p, progs[p]);
        go(p);
        if (st[p].alive) fprintf(lg, "start %d %s\n", p, st[p].point);
    }
    look(-1);
    for (long step = 0; st[0].alive || st[1].alive; step++) {
        int killit = 0, failit = 0;
        if (!st[cur].alive) cur = !cur;
        for (int j = 0; j < nat; j++)
            if (at[j].step == step) {
                if (at[j].kind == 's' && st[!cur].alive) cur = !cur;
                else if (at[j].kind == 'k') killit = 1;
                else if (at[j].kind == 'f') failit = 1;
            }
        if (st[cur].blocked && st[!cur].alive && !st[!cur].blocked) cur = !cur;
        if (killit) {
            fprintf(lg, "step %ld %d killed-before %s\n", step, cur, st[cur].point);
            kill(pids[cur], SIGKILL);
            int s;
            while (waitpid(pids[cur], &s, __WALL) == pids[cur] && !WIFEXITED(s) && !WIFSIGNALED(s)) ptrace(PTRACE_CONT, pids[cur], 0, 0);
            st[cur].alive = 0;
            fprintf(lg, "signal %d %d\n", cur, SIGKILL);
        } else {
            if (st[cur].blocked) failit = 0;
            fprintf(lg, "step %ld %d %s%s\n", step, cur, failit ? "failed " : "", st[cur].point);
            if (failit) {
                struct user_regs_struct r;
                if (ptrace(PTRACE_GETREGS, pids[cur], 0, &r)) die("registers");
                r.orig_rax = -1;
                r.rax = -EIO;
                if (ptrace(PTRACE_SETREGS, pids[cur], 0, &r)) die("registers");
            }
            int was = st[cur].blocked;
            go(cur);
            if (was && st[cur].blocked && (!st[!cur].alive || st[!cur].blocked)) {
                fprintf(lg, "deadlock\n");
                for (int p = 0; p < 2; p++) if (st[p].alive) kill(pids[p], SIGKILL);
                break;
            }
        }
        look(step);
    }
    fprintf(lg, "end\n");
    if (fclose(lg)) die("log");
    return 0;
}
