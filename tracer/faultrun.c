/* faultrun: run one program under ptrace, number its system calls, and disturb chosen ones.
 *
 *   faultrun --log FILE --root DIR [--fault K:ACTION]... -- PROGRAM ARG...
 *
 * Counting starts with the first call that names a path below DIR or a relative path, so that what the
 * dynamic loader does is left alone. Every later call is point 0, 1, 2, ... in the order of execution.
 *
 * ACTION at point K:
 *   eN    the call is not made and fails with errno N (close: is made, and fails)
 *   EN    the same, and so does every later call of the same kind
 *   sN    read, write and the like transfer at most N bytes
 *   S1    the same at every later call of the same kind too
 *   z     the call is not made and returns 0
 *   b     the process is killed before the call
 *   a     the process is killed after the call
 *   mN    at most N bytes are transferred, then the process is killed
 *   cPATH before the call, somebody else creates PATH (if it does not exist), holding "other\n"
 *
 * The log has a line "K NAME COUNT PATH" for every point (COUNT: the byte count of a transfer, else -1),
 * "made PATH" when a c action created the file, and ends in "exit N" or "signal N".
 * Exit status: 0, or 3 when something is wrong with the tracer itself.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

struct fault { long k; char kind; long n; const char *path; long nr; };
static struct fault faults[8];
static int nfaults;

/* name, number, index of the argument with a path (-1: none), index with a byte count (-1: none) */
static const struct sc { const char *name; long nr; int path, count; } table[] = {
    {"open", SYS_open, 0, -1}, {"openat", SYS_openat, 1, -1}, {"openat2", SYS_openat2, 1, -1}, {"creat", SYS_creat, 0, -1},
    {"read", SYS_read, -1, 2}, {"pread", SYS_pread64, -1, 2}, {"readv", SYS_readv, -1, -1},
    {"write", SYS_write, -1, 2}, {"pwrite", SYS_pwrite64, -1, 2}, {"writev", SYS_writev, -1, -1},
    {"copy_file_range", SYS_copy_file_range, -1, 4}, {"sendfile", SYS_sendfile, -1, 3}, {"splice", SYS_splice, -1, 4},
    {"close", SYS_close, -1, -1}, {"rename", SYS_rename, 1, -1}, {"renameat", SYS_renameat, 3, -1}, {"renameat2", SYS_renameat2, 3, -1},
    {"unlink", SYS_unlink, 0, -1}, {"unlinkat", SYS_unlinkat, 1, -1}, {"rmdir", SYS_rmdir, 0, -1},
    {"stat", SYS_stat, 0, -1}, {"lstat", SYS_lstat, 0, -1}, {"fstat", SYS_fstat, -1, -1}, {"newfstatat", SYS_newfstatat, 1, -1}, {"statx", SYS_statx, 1, -1},
    {"access", SYS_access, 0, -1}, {"faccessat", SYS_faccessat, 1, -1}, {"faccessat2", SYS_faccessat2, 1, -1},
    {"chmod", SYS_chmod, 0, -1}, {"fchmod", SYS_fchmod, -1, -1}, {"fchmodat", SYS_fchmodat, 1, -1},
    {"chown", SYS_chown, 0, -1}, {"fchown", SYS_fchown, -1, -1}, {"fchownat", SYS_fchownat, 1, -1}, {"lchown", SYS_lchown, 0, -1},
    {"truncate", SYS_truncate, 0, -1}, {"ftruncate", SYS_ftruncate, -1, -1}, {"fallocate", SYS_fallocate, -1, -1},
    {"fsync", SYS_fsync, -1, -1}, {"fdatasync", SYS_fdatasync, -1, -1}, {"lseek", SYS_lseek, -1, -1},
    {"link", SYS_link, 1, -1}, {"linkat", SYS_linkat, 3, -1}, {"symlink", SYS_symlink, 1, -1}, {"symlinkat", SYS_symlinkat, 2, -1},
    {"mkdir", SYS_mkdir, 0, -1}, {"mkdirat", SYS_mkdirat, 1, -1}, {"readlink", SYS_readlink, 0, -1}, {"readlinkat", SYS_readlinkat, 1, -1},
    {"getdents", SYS_getdents64, -1, -1}, {"utimensat", SYS_utimensat, 1, -1}, {"dup", SYS_dup, -1, -1}, {"dup2", SYS_dup2, -1, -1},
    {"dup3", SYS_dup3, -1, -1}, {"fcntl", SYS_fcntl, -1, -1}, {"ioctl", SYS_ioctl, -1, -1}, {"flock", SYS_flock, -1, -1},
    {"getcwd", SYS_getcwd, -1, -1}, {"mmap", SYS_mmap, -1, -1}, {"mremap", SYS_mremap, -1, -1}, {"brk", SYS_brk, -1, -1},
    {"munmap", SYS_munmap, -1, -1}, {"madvise", SYS_madvise, -1, -1}, {"exit", SYS_exit, -1, -1}, {"exit_group", SYS_exit_group, -1, -1},
};

static const struct sc *lookup(long nr) {
    for (size_t i = 0; i < sizeof table / sizeof *table; i++)
        if (table[i].nr == nr) return &table[i];
    return NULL;
}

static void die(const char *what) {
    fprintf(stderr, "faultrun: %s: %s\n", what, strerror(errno));
    exit(3);
}

static unsigned long long *arg(struct user_regs_struct *r, int i) {
    switch (i) {
    case 0: return &r->rdi;
    case 1: return &r->rsi;
    case 2: return &r->rdx;
    case 3: return &r->r10;
    case 4: return &r->r8;
    default: return &r->r9;
    }
}

static void peek_string(pid_t pid, unsigned long long addr, char *buf, size_t size) {
    size_t n = 0;
    buf[0] = 0;
    while (addr && n + 1 < size) {
        char page[256];
        size_t want = 256 - addr % 256;
        struct iovec l = {page, want}, r = {(void *)addr, want};
        ssize_t got = process_vm_readv(pid, &l, 1, &r, 1, 0);
        if (got <= 0) {
            errno = 0;
            long word = ptrace(PTRACE_PEEKDATA, pid, (void *)addr, 0);
            if (errno) break;
            memcpy(page, &word, sizeof word);
            got = sizeof word;
        }
        for (ssize_t i = 0; i < got && n + 1 < size; i++) {
            buf[n++] = page[i];
            if (!page[i]) return;
        }
        addr += got;
    }
    buf[n] = 0;
}

/* state per thread */
struct thr { pid_t pid; int in, use; long k; long nr; struct fault *f; int skip; long result; };
static struct thr thr[64];
static int nthr;

static struct thr *thread_of(pid_t pid) {
    for (int i = 0; i < nthr; i++)
        if (thr[i].pid == pid) return &thr[i];
    if (nthr == 64) { errno = EAGAIN; die("threads"); }
    memset(&thr[nthr], 0, sizeof thr[nthr]);
    thr[nthr].pid = pid;
    return &thr[nthr++];
}

int main(int argc, char **argv) {
    const char *logname = NULL, *root = NULL;
    int i;
    for (i = 1; i < argc && strcmp(argv[i], "--"); i++) {
        if (!strcmp(argv[i], "--log") && i + 1 < argc) logname = argv[++i];
        else if (!strcmp(argv[i], "--root") && i + 1 < argc) root = argv[++i];
        else if (!strcmp(argv[i], "--fault") && i + 1 < argc && nfaults < 8) {
            struct fault *f = &faults[nfaults++];
            char *end;
            f->k = strtol(argv[++i], &end, 10);
            f->kind = end[1];
            f->nr = -1;
            if (f->kind == 'c') f->path = end + 2; else f->n = strtol(end + 2, NULL, 10);
        } else { errno = EINVAL; die(argv[i]); }
    }
    if (!logname || !root || i + 1 >= argc) { errno = EINVAL; die("usage"); }
    char **prog = argv + i + 1;
    FILE *log = fopen(logname, "we");
    if (!log) die(logname);

    pid_t child = fork();
    if (child < 0) die("fork");
    if (!child) {
        if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(127);
        raise(SIGSTOP);
        execv(prog[0], prog);
        _exit(127);
    }
    int st;
    if (waitpid(child, &st, __WALL) != child || !WIFSTOPPED(st)) { errno = ECHILD; die("start"); }
    if (ptrace(PTRACE_SETOPTIONS, child, 0,
               PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC))
        die("ptrace options");
    thread_of(child);
    if (ptrace(PTRACE_SYSCALL, child, 0, 0)) die("ptrace");

    int active = 0;
    long next = 0;
    for (;;) {
        pid_t pid = waitpid(-1, &st, __WALL);
        if (pid < 0) {
            if (errno == EINTR) continue;
            die("wait");
        }
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            if (pid != child) continue;
            if (WIFEXITED(st)) fprintf(log, "exit %d\n", WEXITSTATUS(st));
            else fprintf(log, "signal %d\n", WTERMSIG(st));
            if (fclose(log)) die("log");
            return 0;
        }
        struct thr *t = thread_of(pid);
        int sig = WSTOPSIG(st), deliver = 0;
        if (sig != (SIGTRAP | 0x80)) {
            /* events and the first stop of a new thread are not for the program */
            if (!(sig == SIGTRAP || (sig == SIGSTOP && !t->use)) || st >> 16) deliver = (st >> 16) ? 0 : sig;
            t->use = 1;
            ptrace(PTRACE_SYSCALL, pid, 0, deliver);
            continue;
        }
        t->use = 1;
        struct user_regs_struct r;
        if (ptrace(PTRACE_GETREGS, pid, 0, &r)) { ptrace(PTRACE_SYSCALL, pid, 0, 0); continue; }
        int killit = 0;
        if (!t->in) {
            t->in = 1;
            t->f = NULL;
            t->skip = 0;
            t->nr = r.orig_rax;
            const struct sc *sc = lookup(t->nr);
            char path[4096] = "";
            if (sc && sc->path >= 0) {
                peek_string(pid, *arg(&r, sc->path), path, sizeof path);
                if (!active && path[0] && (path[0] != '/' || !strncmp(path, root, strlen(root)))) active = 1;
            }
            if (active) {
                t->k = next++;
                long count = sc && sc->count >= 0 ? (long)*arg(&r, sc->count) : -1;
                int transfers = sc && sc->count >= 0;
                for (char *p = path; *p; p++) if (*p == '\n') *p = '?';
                if (transfers) snprintf(path, sizeof path, "fd%lld", (long long)r.rdi);
                fprintf(log, "%ld %s %ld %s\n", t->k, sc ? sc->name : "other", count, path);
                for (int j = 0; j < nfaults; j++) {
                    struct fault *f = &faults[j];
                    int now = f->k == t->k;
                    if (now) f->nr = t->nr;
                    if (!now && !((f->kind == 'E' || f->kind == 'S') && f->nr == t->nr && t->k > f->k)) continue;
                    if (f->kind == 'c') {
                        int fd = open(f->path, O_WRONLY | O_CREAT | O_EXCL | O_CLOEXEC, 0644);
                        if (fd >= 0) {
                            if (write(fd, "other\n", 6) != 6) die("write");
                            close(fd);
                            fprintf(log, "made %s\n", f->path);
                        }
                        continue;
                    }
                    t->f = f;
                    if (f->kind == 'b') { killit = 1; r.orig_rax = -1; }
                    else if ((f->kind == 'e' || f->kind == 'E') && t->nr != SYS_close) { t->skip = 1; t->result = -f->n; r.orig_rax = -1; }
                    else if (f->kind == 'z') { t->skip = 1; t->result = 0; r.orig_rax = -1; }
                    else if ((f->kind == 's' || f->kind == 'S' || f->kind == 'm') && transfers && count > f->n) *arg(&r, sc->count) = f->n;
                    ptrace(PTRACE_SETREGS, pid, 0, &r);
                }
            }
        } else {
            t->in = 0;
            struct fault *f = t->f;
            if (f) {
                if (t->skip) r.rax = t->result;
                else if ((f->kind == 'e' || f->kind == 'E') && t->nr == SYS_close) r.rax = -f->n;
                if (f->kind == 'a' || f->kind == 'm') killit = 1;
                ptrace(PTRACE_SETREGS, pid, 0, &r);
            }
        }
        if (killit) {
            kill(child, SIGKILL);
            continue;
        }
        ptrace(PTRACE_SYSCALL, pid, 0, 0);
    }
}
