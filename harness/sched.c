/* Schedules the file operations of several processes (its own children).
 * argv[1]: plan file, argv[2]: log file.  Plan lines:
 *   watch PATH           the results file (logged whenever it changes)
 *   flag PATH            the busy flag file
 *   proc DIR EXE ARG...  a process (numbered from 0)
 *   sched P P P ...      who performs the next file operation, in turn; after
 *                        the list the processes run to their ends in order
 *   kill P K [T]         process P dies at its K-th file operation (from 1),
 *                        before it, or with T after writing T bytes of it
 *   fault P K ERRNO      its K-th file operation fails
 * Only between the markers prctl(MARK, 0) "begin" and prctl(MARK, 1, rc)
 * "return" (set around sim_save_res by sim_driver.c) operations are scheduled
 * and counted.  They are the system calls that can change or read files; those
 * on the standard descriptors are let through.
 * Log: "B p", "R p rc", "O p k name", "K p", "X p status", "F text|lines",
 *   "L 0/1" (flag file there), "N ops p" (number of operations at the end).
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
#define MARK 0x7e570001
#define MAXP 8
static const struct { int nr; const char *name; int fdarg; } ops[] = {
  {SYS_open, "open", 0}, {SYS_openat, "openat", 0}, {SYS_creat, "creat", 0}, {SYS_read, "read", 1}, {SYS_pread64, "pread", 1}, {SYS_readv, "readv", 1},
  {SYS_write, "write", 1}, {SYS_pwrite64, "pwrite", 1}, {SYS_writev, "writev", 1}, {SYS_close, "close", 1}, {SYS_rename, "rename", 0},
  {SYS_renameat, "renameat", 0}, {SYS_renameat2, "renameat2", 0}, {SYS_unlink, "unlink", 0}, {SYS_unlinkat, "unlinkat", 0}, {SYS_link, "link", 0},
  {SYS_linkat, "linkat", 0}, {SYS_symlink, "symlink", 0}, {SYS_symlinkat, "symlinkat", 0}, {SYS_truncate, "truncate", 0}, {SYS_ftruncate, "ftruncate", 1},
  {SYS_mkdir, "mkdir", 0}, {SYS_mkdirat, "mkdirat", 0}, {SYS_rmdir, "rmdir", 0}, {SYS_fsync, "fsync", 1}, {SYS_fdatasync, "fdatasync", 1}, {SYS_flock, "flock", 1},
  {SYS_lseek, "lseek", 1}, {SYS_access, "access", 0}, {SYS_faccessat, "faccessat", 0}, {SYS_stat, "stat", 0}, {SYS_lstat, "lstat", 0}, {SYS_newfstatat, "fstatat", 2},
  {SYS_copy_file_range, "copy_file_range", 1}, {SYS_sendfile, "sendfile", 1}, {SYS_fallocate, "fallocate", 1}};
#define NOPS (int)(sizeof ops / sizeof ops[0])
typedef struct { pid_t pid; int alive, armed, atop, count, killat, torn, faultat, err; char *cmd[16], *dir; } proc;
static proc P[MAXP];
static int np, sched[100000], ns;
static FILE *lg;
static char watch[4096], flag[4096], last[1 << 16], cur[1 << 16];
static int lastflag = -2;
static void fail(const char *s) { fprintf(stderr, "sched: %s: %s\n", s, strerror(errno)); for (int i = 0; i < np; i++) if (P[i].pid > 0) kill(P[i].pid, SIGKILL); exit(3); }
static void onalarm(int s) { (void)s; static const char m[] = "sched: no progress\n"; if (write(2, m, sizeof m - 1) < 0) {} for (int i = 0; i < np; i++) if (P[i].pid > 0) kill(P[i].pid, SIGKILL); _exit(4); }
static void look(void) {
  struct stat st;
  FILE *f = fopen(watch, "r");
  size_t l = 0;
  if (f) { l = fread(cur + 1, 1, sizeof cur - 2, f); fclose(f); }
  cur[0] = f ? 'Y' : 'N'; cur[l + 1] = 0;
  for (size_t i = 1; i <= l; i++) if (cur[i] == '\n') cur[i] = '|';
  if (strcmp(cur, last)) { strcpy(last, cur); fprintf(lg, "F %s\n", cur); }
  int b = flag[0] && !lstat(flag, &st);
  if (b != lastflag) { lastflag = b; fprintf(lg, "L %d\n", b); }
}
static void child(proc *p) {
  struct sock_filter f[2 * NOPS + 8];
  int n = 0;
  f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (int i = 0; i < NOPS; i++) {
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, ops[i].nr, 0, 1);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
  }
  f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_prctl, 0, 3);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[0]));
  f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, MARK, 0, 1);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  struct sock_fprog fp = {n, f};
  if (chdir(p->dir)) _exit(120);
  signal(SIGXFSZ, SIG_IGN);
  if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(121);
  raise(SIGSTOP);
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &fp)) _exit(122);
  execv(p->cmd[0], p->cmd);
  _exit(123);
}
static void gone(int i, int st) { P[i].alive = 0; P[i].pid = 0; P[i].atop = 0; fprintf(lg, "X %d %d\n", i, WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)); }
/* Lets process i go on until its next operation (it is then about to perform it). */
static void advance(int i) {
  proc *p = &P[i];
  int st, sig = 0;
  p->atop = 0;
  for (;;) {
    alarm(20);
    if (ptrace(PTRACE_CONT, p->pid, 0, sig)) fail("cont");
    if (waitpid(p->pid, &st, __WALL) < 0) fail("wait");
    if (WIFEXITED(st) || WIFSIGNALED(st)) { look(); gone(i, st); return; }
    sig = 0;
    if (st >> 8 == (SIGTRAP | PTRACE_EVENT_SECCOMP << 8)) {
      struct user_regs_struct r;
      if (ptrace(PTRACE_GETREGS, p->pid, 0, &r)) fail("regs");
      if (r.orig_rax == SYS_prctl) {
        look();
        if (r.rsi == 0) { p->armed = 1; fprintf(lg, "B %d\n", i); }
        else { p->armed = 0; fprintf(lg, "R %d %d\n", i, (int)r.rdx); }
        if (p->armed) { p->atop = 2; return; }   /* stops before the first operation, too */
        continue;
      }
      if (!p->armed) continue;
      int k = 0;
      while (k < NOPS && ops[k].nr != (int)r.orig_rax) k++;
      if (ops[k].fdarg == 1 && (int)r.rdi >= 0 && (int)r.rdi <= 2) continue;
      if (ops[k].fdarg == 2 && (int)r.rdi >= 0 && (int)r.rdi <= 2) continue;
      p->count++;
      fprintf(lg, "O %d %d %s\n", i, p->count, ops[k].name);
      p->atop = 1;
      return;
    }
    if (WIFSTOPPED(st) && WSTOPSIG(st) != SIGTRAP) sig = WSTOPSIG(st);
  }
}
static void syscall_end(proc *p, int i) {
  int st;
  alarm(20);
  if (ptrace(PTRACE_SYSCALL, p->pid, 0, 0)) fail("syscall");
  if (waitpid(p->pid, &st, __WALL) < 0) fail("wait2");
  if (WIFEXITED(st) || WIFSIGNALED(st)) { gone(i, st); }
}
/* Process i performs its pending operation (or dies, or the operation fails). */
static void step(int i) {
  proc *p = &P[i];
  struct user_regs_struct r;
  int st;
  if (!p->alive) return;
  if (p->atop == 1 && p->killat == p->count) {
    if (p->torn) {
      if (ptrace(PTRACE_GETREGS, p->pid, 0, &r)) fail("regs");
      if (r.orig_rax == SYS_write && (int)r.rdx > p->torn) { r.rdx = p->torn; if (ptrace(PTRACE_SETREGS, p->pid, 0, &r)) fail("setregs"); }
      syscall_end(p, i);
      if (!p->alive) return;
    }
    kill(p->pid, SIGKILL);
    while (waitpid(p->pid, &st, __WALL) > 0 && !WIFSIGNALED(st) && !WIFEXITED(st)) ptrace(PTRACE_CONT, p->pid, 0, 0);
    look();
    fprintf(lg, "K %d\n", i);
    p->alive = 0; p->pid = 0; p->atop = 0;
    return;
  }
  if (p->atop == 1 && p->faultat == p->count) {
    if (ptrace(PTRACE_GETREGS, p->pid, 0, &r)) fail("regs");
    r.orig_rax = -1;
    if (ptrace(PTRACE_SETREGS, p->pid, 0, &r)) fail("setregs");
    syscall_end(p, i);
    if (!p->alive) return;
    if (ptrace(PTRACE_GETREGS, p->pid, 0, &r)) fail("regs");
    r.rax = -p->err;
    if (ptrace(PTRACE_SETREGS, p->pid, 0, &r)) fail("setregs");
    fprintf(lg, "E %d %d\n", i, p->err);
  }
  else if (p->atop == 1) syscall_end(p, i);
  if (p->alive) { look(); advance(i); }
}
int main(int argc, char **argv) {
  static char line[1 << 20];
  FILE *in = argc > 2 ? fopen(argv[1], "r") : NULL;
  lg = argc > 2 ? fopen(argv[2], "w") : NULL;
  if (!in || !lg) return 2;
  while (fgets(line, sizeof line, in)) {
    char *c = strtok(line, " \n"), *t;
    if (!c) continue;
    if (!strcmp(c, "watch")) strcpy(watch, strtok(NULL, " \n"));
    else if (!strcmp(c, "flag")) strcpy(flag, strtok(NULL, " \n"));
    else if (!strcmp(c, "proc")) {
      int n = 0;
      P[np].dir = strdup(strtok(NULL, " \n"));
      while ((t = strtok(NULL, " \n"))) P[np].cmd[n++] = strdup(t);
      np++;
    }
    else if (!strcmp(c, "sched")) while ((t = strtok(NULL, " \n"))) sched[ns++] = atoi(t);
    else if (!strcmp(c, "kill")) { int i = atoi(strtok(NULL, " \n")); P[i].killat = atoi(strtok(NULL, " \n")); if ((t = strtok(NULL, " \n"))) P[i].torn = atoi(t); }
    else if (!strcmp(c, "fault")) { int i = atoi(strtok(NULL, " \n")); P[i].faultat = atoi(strtok(NULL, " \n")); P[i].err = atoi(strtok(NULL, " \n")); }
  }
  signal(SIGALRM, onalarm);
  look();
  for (int i = 0; i < np; i++) {
    int st;
    fflush(lg);
    P[i].pid = fork();
    if (P[i].pid == 0) child(&P[i]);
    if (P[i].pid < 0) fail("fork");
    P[i].alive = 1;
    alarm(20);
    if (waitpid(P[i].pid, &st, __WALL) < 0 || !WIFSTOPPED(st)) { fprintf(stderr, "sched: child does not start %x\n", st); fail("start"); }
    if (ptrace(PTRACE_SETOPTIONS, P[i].pid, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_EXITKILL)) fail("options");
    advance(i);
  }
  for (int k = 0; k < ns; k++) if (sched[k] < np) step(sched[k]);
  for (int i = 0; i < np; i++) while (P[i].alive) step(i);
  look();
  for (int i = 0; i < np; i++) fprintf(lg, "N %d %d\n", i, P[i].count);
  fprintf(lg, "end\n");
  return fclose(lg) ? 2 : 0;
}
