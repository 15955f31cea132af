// Runs a program under ptrace: logs its file operations together with the index the
// key file holds at that moment, and kills, fails, shortens, delays or pauses it at the
// operation with a chosen number.
//   ptrun log=FILE start=PATH [key=FILE,OFFSET,LEN] [kill_entry=N] [kill_exit=N] [err=N,ERRNO,STICKY]
//         [short=N,BYTES,STICKY] [pause=N,PREFIX] [delay=SEED] [closed=MASK] [fsize=N] [pipeign=1] -- program arguments
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <string>
#include <vector>
static std::map<std::string, std::string> opt;
static std::vector<std::string> split(const std::string &s) { std::vector<std::string> r; size_t p = 0; for (;;) { size_t q = s.find(',', p); r.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return r; p = q + 1; } }
static const struct { long nr; const char *name; int kind; } SC[] = {   // kind 1: on a path, 2: on a file descriptor, 3: data in or out (count in the third argument)
    {SYS_open, "open", 1}, {SYS_openat, "openat", 1}, {SYS_creat, "creat", 1}, {SYS_rename, "rename", 1}, {SYS_renameat, "renameat", 1}, {SYS_renameat2, "renameat2", 1}, {SYS_unlink, "unlink", 1}, {SYS_unlinkat, "unlinkat", 1}, {SYS_truncate, "truncate", 1}, {SYS_link, "link", 1},
    {SYS_read, "read", 3}, {SYS_write, "write", 3}, {SYS_pread64, "pread64", 3}, {SYS_pwrite64, "pwrite64", 3}, {SYS_readv, "readv", 2}, {SYS_writev, "writev", 2}, {SYS_lseek, "lseek", 2}, {SYS_close, "close", 2}, {SYS_fsync, "fsync", 2}, {SYS_fdatasync, "fdatasync", 2}, {SYS_ftruncate, "ftruncate", 2},
    {SYS_flock, "flock", 2}, {SYS_fcntl, "fcntl", 2}, {SYS_fstat, "fstat", 2}, {SYS_newfstatat, "newfstatat", 1}, {SYS_sendfile, "sendfile", 2}, {SYS_splice, "splice", 2}, {SYS_copy_file_range, "copy_file_range", 2}, {SYS_dup, "dup", 2}, {SYS_dup2, "dup2", 2}, {SYS_mmap, "mmap", 0}, {SYS_brk, "brk", 0}, {SYS_munmap, "munmap", 0}, {SYS_exit_group, "exit_group", 0}};
static std::string peekstr(pid_t p, unsigned long a) { std::string s; while (s.size() < 4000) { errno = 0; long w = ptrace(PTRACE_PEEKDATA, p, a + s.size(), 0); if (errno) break; for (int i = 0; i < 8; i++) { char ch = w >> (8 * i); if (!ch) return s; s += ch; } } return s; }
int main(int argc, char **argv) {
    int i = 1; for (; i < argc && strcmp(argv[i], "--"); i++) { char *e = strchr(argv[i], '='); if (e) opt[std::string(argv[i], e)] = e + 1; }
    char **prog = argv + i + 1; FILE *log = fopen(opt["log"].c_str(), "w"); if (!log || !*prog) return 125; fcntl(fileno(log), F_SETFD, FD_CLOEXEC); std::string keyf; long koff = 0, klen = 0; if (opt.count("key")) { auto k = split(opt["key"]); keyf = k[0]; koff = atol(k[1].c_str()); klen = atol(k[2].c_str()); }
    auto num = [&](const char *n) { return opt.count(n) ? atol(split(opt[n])[0].c_str()) : 0L; }; auto arg2 = [&](const char *n) { auto v = split(opt[n]); return v.size() > 1 ? v[1] : std::string(); }; auto sticky = [&](const char *n) { auto v = split(opt[n]); return v.size() > 2 && v[2] == "1"; };
    long kent = num("kill_entry"), kex = num("kill_exit"), err = num("err"), sh = num("short"), pau = num("pause"), drop = num("closed"); uint64_t rs = num("delay");
    pid_t p = fork(); if (p < 0) return 125;
    if (!p) { for (int f = 0; f < 3; f++) if (drop >> f & 1) close(f); if (opt.count("fsize")) { signal(SIGXFSZ, SIG_IGN); struct rlimit rl = {(rlim_t)num("fsize"), RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE, &rl); } signal(SIGPIPE, opt.count("pipeign") ? SIG_IGN : SIG_DFL); if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(125); raise(SIGSTOP); execv(prog[0], prog); _exit(126); }
    int st; waitpid(p, &st, 0); if (!WIFSTOPPED(st)) { fprintf(log, "{\"noptrace\":1}\n"); return 125; } ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
    for (int f = 0; f < 3; f++) close(f);   // pipes must end with the program
    bool in = false, started = !opt.count("start"); long n = 0, inject = 0; long errkind = -1, shkind = -1; bool dead = false; std::string path;
    long sig = 0;
    while (!dead) {
        if (ptrace(PTRACE_SYSCALL, p, 0, sig)) break; sig = 0; if (waitpid(p, &st, 0) < 0) break; if (WIFEXITED(st) || WIFSIGNALED(st)) break;
        if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st); if (sig == SIGTRAP || sig == SIGSTOP) sig = 0; continue; }
        user_regs_struct r; ptrace(PTRACE_GETREGS, p, 0, &r); in = !in; int s = -1; for (size_t q = 0; q < sizeof SC / sizeof *SC; q++) if (SC[q].nr == (long)r.orig_rax) s = q;
        if (in) {
            inject = 0; path.clear(); if (s < 0) continue; if (SC[s].kind == 1) path = peekstr(p, SC[s].nr == SYS_openat || SC[s].nr == SYS_unlinkat || SC[s].nr == SYS_renameat || SC[s].nr == SYS_renameat2 || SC[s].nr == SYS_newfstatat ? r.rsi : r.rdi);
            if (!started && path == opt["start"] && SC[s].nr != SYS_newfstatat) started = true; if (!started) continue; n++;
            if (rs) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; if ((rs >> 60) < 5) usleep((rs >> 33) % 2500); }
            if (n == pau) { std::string pre = arg2("pause"); close(open((pre + ".paused").c_str(), O_CREAT | O_WRONLY, 0600)); for (int w = 0; w < 60000 && access((pre + ".go").c_str(), F_OK); w++) usleep(500); }
            if (n == kent) { kill(p, SIGKILL); waitpid(p, &st, 0); fprintf(log, "{\"n\":%ld,\"e\":\"%s\",\"fd\":%ld,\"killed\":\"entry\"}\n", n, SC[s].name, (long)r.rdi); dead = true; break; }
            if (n == err || (err && n > err && sticky("err") && SC[s].nr == errkind)) { errkind = SC[s].nr; inject = atol(arg2("err").c_str()); r.orig_rax = -1; ptrace(PTRACE_SETREGS, p, 0, &r); in = true; s = -2; ptrace(PTRACE_SYSCALL, p, 0, 0); waitpid(p, &st, 0); in = false; if (WIFEXITED(st) || WIFSIGNALED(st)) break; ptrace(PTRACE_GETREGS, p, 0, &r); r.rax = -inject; ptrace(PTRACE_SETREGS, p, 0, &r); const char *nm = "?"; for (auto &x : SC) if (x.nr == errkind) nm = x.name; fprintf(log, "{\"n\":%ld,\"e\":\"%s\",\"fd\":%ld,\"failed\":%ld}\n", n, nm, (long)r.rdi, inject); fflush(log); continue; }
            if (SC[s].kind == 3 && (n == sh || (sh && n > sh && sticky("short") && SC[s].nr == shkind))) { shkind = SC[s].nr; unsigned long k = atol(arg2("short").c_str()); if (k < r.rdx) { r.rdx = k; ptrace(PTRACE_SETREGS, p, 0, &r); } }
        } else if (started && s >= 0) {
            std::string idx; if (!keyf.empty()) { int f = open(keyf.c_str(), O_RDONLY); unsigned char b[16]; if (f >= 0 && klen <= 16 && pread(f, b, klen, koff) == klen) { uint64_t v = 0; for (int q = 0; q < klen; q++) v = v << 8 | b[q]; idx = std::to_string(v); } if (f >= 0) close(f); }
            std::string ep; for (char ch : path) if (ch >= ' ' && ch != '"' && ch != '\\' && (unsigned char)ch < 127) ep += ch;
            fprintf(log, "{\"n\":%ld,\"e\":\"%s\",\"fd\":%ld,\"ret\":%ld,\"cnt\":%ld,\"path\":\"%s\",\"idx\":%s}\n", n, SC[s].name, (long)r.rdi, (long)r.rax, (long)r.rdx, ep.c_str(), idx.empty() ? "null" : idx.c_str()); fflush(log);
            if (n == kex) { kill(p, SIGKILL); waitpid(p, &st, 0); dead = true; break; }
        }
    }
    if (WIFSIGNALED(st)) fprintf(log, "{\"end\":\"signal\",\"v\":%d}\n", WTERMSIG(st)); else fprintf(log, "{\"end\":\"exit\",\"v\":%d}\n", WEXITSTATUS(st)); fclose(log); return 0;
}
