#include "kernel.hpp"
#include "../core/seams.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace osim {

static World* W = nullptr;
static Proc* CL = nullptr;
static bool g_child = false;      // this real process is a forked child of the simulation
static int g_sock = -1;
static char g_poll;               // pollers wait here
static const char* CWD = "/work";

struct Death { int sig; };

World& world() { return *W; }
Proc& client() { return *CL; }
bool inChild() { return g_child; }

static std::string norm(const std::string& p) {
    std::string s = !p.empty() && p[0] == '/' ? p : std::string(CWD) + "/" + p;
    std::vector<std::string> parts;
    size_t i = 0;
    while (i < s.size()) {
        size_t j = s.find('/', i);
        if (j == std::string::npos) j = s.size();
        std::string x = s.substr(i, j - i);
        if (x == "..") { if (!parts.empty()) parts.pop_back(); }
        else if (!x.empty() && x != ".") parts.push_back(x);
        i = j + 1;
    }
    std::string r;
    for (auto& x : parts) r += "/" + x;
    return r.empty() ? "/" : r;
}
static std::string parent(const std::string& n) {
    size_t k = n.rfind('/');
    return k == 0 ? "/" : n.substr(0, k);
}
static std::shared_ptr<Inode> find(const std::string& n) {
    auto it = W->fs.find(n);
    return it == W->fs.end() ? nullptr : it->second;
}
// 0 or the error of resolving the folder of a path
static int dirOk(const std::string& n) {
    if (n == "/") return 0;
    std::string d = parent(n);
    auto i = find(d);
    if (!i) { int e = dirOk(d); return e ? e : ENOENT; }
    if (!i->dir) return ENOTDIR;
    return 0;
}

static void wakeFd(Pipe* p) { wakeAll(p); wakeAll(&g_poll); }

static void unref(OpenFile* f) {
    if (--f->refs > 0) return;
    if (f->kind == F_PIPE_R) { f->pipe->readers--; wakeFd(f->pipe); }
    if (f->kind == F_PIPE_W) { f->pipe->writers--; wakeFd(f->pipe); }
}
static int lowest(Proc& p, int from = 0) { int fd = from; while (p.fds.count(fd)) fd++; return fd; }

struct RealChild { int pid; };
static void procExit(Proc& p, int status) {
    std::map<int, Fd> fds;
    fds.swap(p.fds);
    for (auto& kv : fds) unref(kv.second.of);
    p.zombie = true;
    p.status = status;
    event(0x3000 + (uint64_t) status);
    wakeAll(CL);
    wakeAll(&g_poll);
}

// ---------------------------------------------------------------- signals of the client
static thread_local bool t_blocked = false, t_pending = false;
int sigpipeDisposition() { return CL->sigpipe; }
bool sigpipeBlockedHere() { return t_blocked; }
bool sigpipePending() { return t_pending; }

// ---------------------------------------------------------------- system calls (negative = -errno)
static bool faulty(Proc& p) { return !p.tool; }

static long k_pipe(Proc& p, int fd[2], int flags) {
    point();
    if (faulty(p) && fault('P', K_PIPEFAIL)) return -(choose('1', 2) ? ENFILE : EMFILE);
    Pipe* pp = new Pipe();
    pp->cap = W->opt.pipeCap;
    pp->readers = pp->writers = 1;
    for (int i = 0; i < 2; ++i) {
        OpenFile* f = new OpenFile();
        f->kind = i == 0 ? F_PIPE_R : F_PIPE_W;
        f->pipe = pp;
        f->refs = 1;
        f->flags = flags & O_NONBLOCK;
        fd[i] = lowest(p);
        p.fds[fd[i]] = Fd{f, (flags & O_CLOEXEC) != 0};
    }
    return 0;
}

static long sigpipe(Proc& p) {
    probe(K_EPIPE);
    if (&p == CL) {
        if (CL->sigpipe == 0) {
            if (t_blocked) t_pending = true;
            else violation("killed-by-signal", "the calling process is killed by SIGPIPE");
        }
        if (CL->sigpipe == 2 && t_blocked) t_pending = true;
    } else if (p.sigpipe == 0 && !p.pipeBlocked) throw Death{SIGPIPE};
    return -EPIPE;
}

static long writeFile(Proc& p, OpenFile* f, const char* b, size_t n) {
    if (f->kind == F_TTY) { W->tty.append(b, n); return (long) n; }
    if (fault('d', K_DISKFULL)) {
        size_t part = n ? (size_t) choose('z', (int64_t) n) : 0;
        if (part == 0) return choose('1', 2) ? -EIO : -ENOSPC;
        n = part;               // a short write (the disk is full): the next attempt may fail
    }
    std::string& d = f->ino->data;
    if (f->flags & O_APPEND) f->off = d.size();
    if (d.size() < f->off + n) d.resize(f->off + n);
    memcpy(&d[f->off], b, n);
    f->off += n;
    f->dirty = true;
    return (long) n;
}

static long k_write(Proc& p, int fd, const void* buf, size_t n) {
    point();
    auto it = p.fds.find(fd);
    if (it == p.fds.end()) return -EBADF;
    OpenFile* f = it->second.of;
    const char* b = (const char*) buf;
    if (f->kind == F_PIPE_R) return -EBADF;
    if (f->kind != F_PIPE_W) {
        if (f->kind == F_FILE && (f->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
        return writeFile(p, f, b, n);
    }
    Pipe* q = f->pipe;
    f->refs++; // the descriptor may be closed by another thread meanwhile
    size_t done = 0;
    long r = 0;
    for (;;) {
        if (q->readers == 0) {
            f->refs--;
            long e = sigpipe(p);
            return done ? (long) done : e;
        }
        size_t space = q->cap > q->buf.size() ? q->cap - q->buf.size() : 0;
        if (space > 0 && (n - done > 4096 || space >= n - done)) {
            size_t k = std::min(space, n - done);
            q->buf.append(b + done, k);
            done += k;
            wakeFd(q);
            if (done == n) { r = (long) done; break; }
            continue;
        }
        if (n == 0) { r = 0; break; }
        if (f->flags & O_NONBLOCK) { r = done ? (long) done : -EAGAIN; break; }
        if (faulty(p) && fault('e', done ? K_SHORT : K_EINTR)) { r = done ? (long) done : -EINTR; break; }
        blockOn(q);
    }
    f->refs--;
    point();
    return r;
}

static long k_read(Proc& p, int fd, void* buf, size_t n) {
    point();
    auto it = p.fds.find(fd);
    if (it == p.fds.end()) return -EBADF;
    OpenFile* f = it->second.of;
    if (f->kind == F_PIPE_W) return -EBADF;
    if (f->kind == F_TTY) return 0;
    if (f->kind == F_FILE) {
        if (f->ino->dir) return -EISDIR;
        size_t k = f->off < f->ino->data.size() ? std::min(n, f->ino->data.size() - f->off) : 0;
        memcpy(buf, f->ino->data.data() + f->off, k);
        f->off += k;
        return (long) k;
    }
    Pipe* q = f->pipe;
    f->refs++;
    long r = 0;
    for (;;) {
        if (!q->buf.empty()) {
            size_t k = std::min(n, q->buf.size());
            memcpy(buf, q->buf.data(), k);
            q->buf.erase(0, k);
            wakeFd(q);
            r = (long) k;
            break;
        }
        if (q->writers == 0 || n == 0) break;
        if (f->flags & O_NONBLOCK) { r = -EAGAIN; break; }
        if (faulty(p) && fault('e', K_EINTR)) { r = -EINTR; break; }
        blockOn(q);
    }
    f->refs--;
    return r;
}

static long k_close(Proc& p, int fd) {
    point();
    auto it = p.fds.find(fd);
    if (it == p.fds.end()) return -EBADF;
    OpenFile* f = it->second.of;
    p.fds.erase(it);
    long r = 0;
    if (f->kind == F_FILE && f->refs == 1 && f->dirty && fault('l', K_CLOSEFAIL)) { // delayed write error: the tail is lost
        size_t keep = (size_t) choose('z', (int64_t) f->ino->data.size() + 1);
        f->ino->data.resize(keep);
        r = choose('1', 2) ? -ENOSPC : -EIO;
    }
    unref(f);
    return r;
}

static long k_dup2(Proc& p, int a, int b, bool cloexec, bool sameOk) {
    point();
    auto it = p.fds.find(a);
    if (it == p.fds.end()) return -EBADF;
    if (a == b) return sameOk ? b : -EINVAL;
    if (faulty(p) && fault('D', K_DUPFAIL)) return choose('1', 2) ? -EBUSY : -EINTR;
    OpenFile* f = it->second.of;
    f->refs++;
    auto o = p.fds.find(b);
    if (o != p.fds.end()) { unref(o->second.of); }
    p.fds[b] = Fd{f, cloexec};
    return b;
}

static long k_fcntl(Proc& p, int fd, int cmd, long arg) {
    point();
    auto it = p.fds.find(fd);
    if (it == p.fds.end()) return -EBADF;
    switch (cmd) {
        case F_GETFD: return it->second.cloexec ? FD_CLOEXEC : 0;
        case F_SETFD: it->second.cloexec = (arg & FD_CLOEXEC) != 0; return 0;
        case F_GETFL: return it->second.of->flags | (it->second.of->kind == F_PIPE_W ? O_WRONLY : 0);
        case F_SETFL: it->second.of->flags = (it->second.of->flags & O_ACCMODE) | ((int) arg & ~O_ACCMODE); return 0;
        case F_DUPFD: case F_DUPFD_CLOEXEC: {
            if (faulty(p) && fault('P', K_PIPEFAIL)) return -EMFILE;
            OpenFile* f = it->second.of;
            f->refs++;
            int n = lowest(p, (int) arg);
            p.fds[n] = Fd{f, cmd == F_DUPFD_CLOEXEC};
            return n;
        }
        case F_GETPIPE_SZ: return it->second.of->pipe ? (long) it->second.of->pipe->cap : -EBADF;
        case F_SETPIPE_SZ: return -EPERM;
        default: return -EINVAL;
    }
}

static long k_open(Proc& p, const std::string& path, int flags) {
    point();
    std::string n = norm(path);
    if (fault('o', K_OPENFAIL)) { static const int e[] = {EMFILE, EACCES, ENOSPC, EIO}; return -e[choose('1', 4)]; }
    int e = dirOk(n);
    if (e) return -e;
    auto i = find(n);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (!i) {
        if (!(flags & O_CREAT)) return -ENOENT;
        i = std::make_shared<Inode>();
        W->fs[n] = i;
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
        if (i->dir && wr) return -EISDIR;
        if (i->readonly && wr) return -EACCES;
        if (wr && (flags & O_TRUNC)) i->data.clear();
    }
    OpenFile* f = new OpenFile();
    f->kind = F_FILE;
    f->ino = i;
    f->path = n;
    f->flags = flags & (O_ACCMODE | O_APPEND | O_NONBLOCK);
    f->refs = 1;
    int fd = lowest(p);
    p.fds[fd] = Fd{f, (flags & O_CLOEXEC) != 0};
    return fd;
}

static long k_mkdir(Proc& p, const std::string& path) {
    point();
    std::string n = norm(path);
    if (path.empty()) return -ENOENT;
    if (faulty(p) && fault('M', K_MKDIRFAIL)) { static const int e[] = {ENOSPC, EACCES, EROFS}; return -e[choose('1', 3)]; }
    int e = dirOk(n);
    if (e) return -e;
    if (find(n)) return -EEXIST;
    auto i = std::make_shared<Inode>();
    i->dir = true;
    W->fs[n] = i;
    return 0;
}
static bool emptyDir(const std::string& n) {
    auto it = W->fs.upper_bound(n + "/");
    return !(it != W->fs.end() && it->first.compare(0, n.size() + 1, n + "/") == 0);
}
static long k_remove(Proc& p, const std::string& path, int what) { // 0 file, 1 folder, 2 either
    point();
    std::string n = norm(path);
    if (path.empty()) return -ENOENT;
    int e = dirOk(n);
    if (e) return -e;
    auto i = find(n);
    if (!i) return -ENOENT;
    if (i->dir) {
        if (what == 0) return -EISDIR;
        if (!emptyDir(n)) return -ENOTEMPTY;
    } else if (what == 1) return -ENOTDIR;
    W->fs.erase(n);
    return 0;
}
static long k_rename(Proc& p, const std::string& a, const std::string& b) {
    point();
    std::string x = norm(a), y = norm(b);
    int e = dirOk(x);
    if (!e) e = dirOk(y);
    if (e) return -e;
    auto i = find(x);
    if (!i) return -ENOENT;
    auto j = find(y);
    if (j && j->dir != i->dir) return j->dir ? -EISDIR : -ENOTDIR;
    if (i->dir) return -EINVAL;
    W->fs[y] = i;
    W->fs.erase(x);
    return 0;
}
static long k_stat(Proc&, const std::string& path, struct stat* st) {
    point();
    std::string n = norm(path);
    int e = dirOk(n);
    if (e) return -e;
    auto i = find(n);
    if (!i) return -ENOENT;
    memset(st, 0, sizeof *st);
    st->st_mode = i->dir ? (S_IFDIR | 0755) : (S_IFREG | (i->readonly ? 0444 : 0644));
    st->st_size = (off_t) i->data.size();
    st->st_nlink = 1;
    return 0;
}
static int readiness(Proc& p, int fd, short ev) {
    auto it = p.fds.find(fd);
    if (it == p.fds.end()) return POLLNVAL;
    OpenFile* f = it->second.of;
    int r = 0;
    if (f->kind == F_PIPE_R) {
        if (!f->pipe->buf.empty()) r |= ev & (POLLIN | POLLRDNORM);
        if (f->pipe->writers == 0) r |= POLLHUP;
    } else if (f->kind == F_PIPE_W) {
        if (f->pipe->readers == 0) r |= POLLERR;
        if (f->pipe->buf.size() + 4096 <= f->pipe->cap || f->pipe->buf.empty()) r |= ev & (POLLOUT | POLLWRNORM);
    } else r |= ev & (POLLIN | POLLOUT);
    return r;
}
static long k_poll(Proc& p, struct pollfd* v, size_t n, long timeoutMs) {
    point();
    uint64_t until = timeoutMs > 0 ? now() + (uint64_t) timeoutMs * 1000000 : 0;
    for (;;) {
        int c = 0;
        for (size_t i = 0; i < n; ++i) {
            v[i].revents = v[i].fd < 0 ? 0 : (short) readiness(p, v[i].fd, v[i].events);
            if (v[i].revents) c++;
        }
        if (c || timeoutMs == 0) return c;
        if (faulty(p) && fault('e', K_EINTR)) return -EINTR;
        if (until) { if (!blockOnUntil(&g_poll, until)) return 0; }
        else blockOn(&g_poll);
    }
}

static long k_waitpid(Proc& p, int pid, int* st, int opt) {
    point();
    for (;;) {
        bool any = false;
        for (Proc* c : W->procs)
            if (c->ppid == p.pid && !c->reaped && (pid == -1 || c->pid == pid)) {
                any = true;
                if (c->zombie) {
                    c->reaped = true;
                    if (st) *st = c->status;
                    return c->pid;
                }
            }
        if (!any) return -ECHILD;
        if (opt & WNOHANG) return 0;
        if (faulty(p) && fault('e', K_EINTR)) return -EINTR;
        blockOn(CL);
    }
}

// ---------------------------------------------------------------- requests of forked children
enum Rpc { R_PIPE, R_READ, R_WRITE, R_CLOSE, R_DUP2, R_FCNTL, R_OPEN, R_MKDIR, R_REMOVE, R_RENAME, R_STAT, R_POLL, R_WAITPID, R_EXEC, R_EXIT, R_HANDLER,
    R_ESCAPE, R_KILL, R_SIGPIPE, R_SIGMASK, R_DIE };
struct Msg { int op; int err; long a[4]; long ret; size_t len; };
enum { MAXDATA = 1 << 20 };

static bool rawSend(int s, const void* p, size_t n) {
    const char* b = (const char*) p;
    while (n) {
        long k = syscall(SYS_sendto, s, b, n, MSG_NOSIGNAL, nullptr, 0);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        b += k; n -= (size_t) k;
    }
    return true;
}
static bool rawRecv(int s, void* p, size_t n) {
    char* b = (char*) p;
    while (n) {
        long k = syscall(SYS_recvfrom, s, b, n, 0, nullptr, nullptr);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        b += k; n -= (size_t) k;
    }
    return true;
}
// in the child
static long rpc(int op, long a0 = 0, long a1 = 0, long a2 = 0, const void* data = nullptr, size_t len = 0, void* out = nullptr, size_t outCap = 0) {
    Msg m{op, 0, {a0, a1, a2, (long) outCap}, 0, len};
    if (!rawSend(g_sock, &m, sizeof m) || (len && !rawSend(g_sock, data, len))) syscall(SYS_exit_group, 0);
    if (!rawRecv(g_sock, &m, sizeof m)) syscall(SYS_exit_group, 0);
    if (m.op == R_DIE) syscall(SYS_exit_group, 0);
    if (m.len) {
        static char sink[65536];
        size_t k = std::min(m.len, outCap);
        if (k && !rawRecv(g_sock, out, k)) syscall(SYS_exit_group, 0);
        for (size_t rest = m.len - k; rest;) { size_t q = std::min(rest, sizeof sink); if (!rawRecv(g_sock, sink, q)) syscall(SYS_exit_group, 0); rest -= q; }
    }
    if (m.ret < 0) { errno = (int) -m.ret; return -1; }
    return m.ret;
}

static void runTool(Proc& p, const std::string& path, const std::vector<std::string>& argv);

// serves one forked child until it becomes a tool or ends
static void serve(Proc& p, int sock, int realPid) {
    Own own;
    std::vector<char> buf, out;
    std::string exePath;
    std::vector<std::string> argv;
    int status = 0;
    bool exec = false;
    try {
        for (;;) {
            Msg m;
            if (!rawRecv(sock, &m, sizeof m)) { // the child crashed natively
                int st = 0;
                while (waitpid(realPid, &st, 0) < 0 && errno == EINTR) {}
                syscall(SYS_close, sock);
                violation("child-crash", "the forked child was killed by signal %d before it executed the tool", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
            }
            if (m.len > MAXDATA) infra("request too long");
            buf.resize(m.len + 1);
            if (m.len && !rawRecv(sock, buf.data(), m.len)) infra("lost a child");
            buf[m.len] = 0;
            std::string s(buf.data(), m.len);
            out.clear();
            long r = 0;
            bool end = false;
            switch (m.op) {
                case R_PIPE: { int fd[2]; r = k_pipe(p, fd, (int) m.a[0]); out.assign((char*) fd, (char*) (fd + 2)); break; }
                case R_READ: out.resize(std::min<size_t>((size_t) m.a[1], MAXDATA)); r = k_read(p, (int) m.a[0], out.data(), out.size()); out.resize(r > 0 ? (size_t) r : 0); break;
                case R_WRITE: r = k_write(p, (int) m.a[0], buf.data(), m.len); break;
                case R_CLOSE: r = k_close(p, (int) m.a[0]); break;
                case R_DUP2: r = k_dup2(p, (int) m.a[0], (int) m.a[1], (m.a[2] & 1) != 0, (m.a[2] & 2) != 0); break;
                case R_FCNTL: r = k_fcntl(p, (int) m.a[0], (int) m.a[1], m.a[2]); break;
                case R_OPEN: r = k_open(p, s, (int) m.a[0]); break;
                case R_MKDIR: r = k_mkdir(p, s); break;
                case R_REMOVE: r = k_remove(p, s, (int) m.a[0]); break;
                case R_SIGPIPE: r = p.sigpipe; p.sigpipe = (int) m.a[0]; break;
                case R_SIGMASK: r = p.pipeBlocked; if (m.a[0] >= 0) p.pipeBlocked = m.a[0] != 0; break;
                case R_STAT: { struct stat st; r = k_stat(p, s, &st); out.assign((char*) &st, (char*) (&st + 1)); break; }
                case R_HANDLER: if (W->opt.strictChild) violation("exit-handler", "the exit handlers of the calling process are run by its forked child"); break;
                case R_ESCAPE:
                    if (W->opt.strictChild) violation("child-escaped", "the forked child returned into the code of the caller (%s)", s.c_str());
                    end = true;
                    break;
                case R_EXIT: status = ((int) m.a[0] & 0xff) << 8; end = true; break;
                case R_KILL: status = (int) m.a[0]; end = true; break;
                case R_EXEC: {
                    point();
                    std::vector<std::string> av;
                    size_t i = 0;
                    while (i < s.size()) { size_t j = s.find('\0', i); av.push_back(s.substr(i, j - i)); i = j + 1; }
                    if (av.empty()) infra("bad exec request");
                    auto ino = find(norm(av[0]));
                    if (fault('X', K_EXECFAIL)) { static const int e[] = {ENOMEM, EACCES, E2BIG, ETXTBSY}; r = -e[choose('1', 4)]; }
                    else if (!ino) r = -ENOENT;
                    else if (ino->dir || ino->data.compare(0, 5, "#TOOL") != 0) r = ino->dir ? -EACCES : -ENOEXEC;
                    else { exePath = av[0]; av.erase(av.begin()); argv = av; exec = true; end = true; }
                    break;
                }
                default: infra("unknown request %d", m.op);
            }
            Msg a{end ? R_DIE : m.op, 0, {0, 0, 0, 0}, r, out.size()};
            if (!rawSend(sock, &a, sizeof a) || (!out.empty() && !rawSend(sock, out.data(), out.size()))) infra("lost a child");
            if (end) break;
        }
    } catch (const Death& d) {
        Msg a{R_DIE, 0, {0, 0, 0, 0}, 0, 0};
        rawSend(sock, &a, sizeof a);
        status = d.sig;
        exec = false;
    }
    int st;
    while (waitpid(realPid, &st, 0) < 0 && errno == EINTR) {}
    syscall(SYS_close, sock);
    if (exec) {
        p.tool = true;
        probe(K_EXECS);
        for (auto it = p.fds.begin(); it != p.fds.end();) {
            if (it->second.cloexec) { OpenFile* f = it->second.of; it = p.fds.erase(it); unref(f); }
            else ++it;
        }
        if (p.sigpipe == 2) p.sigpipe = 0;
        try {
            runTool(p, exePath, argv);
            status = p.status;
        } catch (const Death& d) {
            status = d.sig;
            probe(K_KILLED);
            W->toolFailures++;
        }
    }
    procExit(p, status);
}

static long k_fork() {
    point();
    if (fault('F', K_FORKFAIL)) return choose('1', 2) ? -ENOMEM : -EAGAIN;
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) != 0) infra("socketpair");
    int real = fork();
    if (real < 0) infra("real fork failed");
    if (real == 0) {
        syscall(SYS_close, sv[0]);
        g_sock = sv[1];
        g_child = true;
        enterChild();
        return 0;
    }
    syscall(SYS_close, sv[1]);
    Proc* c = new Proc();
    c->pid = W->nextPid++;
    c->ppid = CL->pid;
    c->sigpipe = CL->sigpipe;
    c->pipeBlocked = t_blocked;
    c->fds = CL->fds;
    for (auto& kv : c->fds) kv.second.of->refs++;
    W->procs.push_back(c);
    W->forks++;
    int sock = sv[0];
    spawn([c, sock, real] { serve(*c, sock, real); }, "child process");
    point();
    return c->pid;
}

// ---------------------------------------------------------------- scripted tools
static std::string g_scriptOut;
const std::string& lastScriptOutput() { return g_scriptOut; }

static void mayDie(Proc&) {
    if (fault('k', -1)) { static const int s[] = {SIGKILL, SIGSEGV, SIGTERM, SIGABRT}; throw Death{s[choose('1', 4)]}; }
}
static bool toolWriteAll(Proc& p, int fd, const std::string& s, size_t chunk = 65536) {
    size_t i = 0;
    while (i < s.size()) {
        mayDie(p);
        long k = k_write(p, fd, s.data() + i, std::min(chunk, s.size() - i));
        if (k < 0) return false;
        i += (size_t) k;
    }
    return true;
}
static bool toolReadAll(Proc& p, int fd, std::string& s, size_t chunk) {
    std::vector<char> b(chunk);
    for (;;) {
        mayDie(p);
        long k = k_read(p, fd, b.data(), chunk);
        if (k < 0) return false;
        if (k == 0) return true;
        s.append(b.data(), (size_t) k);
    }
}
static bool toolWriteFile(Proc& p, const std::string& path, const std::string& data) {
    long fd = k_open(p, path, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC);
    if (fd < 0) return false;
    bool ok = toolWriteAll(p, (int) fd, data, 4096 << choose('2', 6));
    if (k_close(p, (int) fd) < 0) ok = false;
    if (!ok && choose('1', 2)) k_remove(p, path, 0);
    return ok;
}
static bool toolReadFile(Proc& p, const std::string& path, std::string& data) {
    long fd = k_open(p, path, O_RDONLY | O_CLOEXEC);
    if (fd < 0) return false;
    bool ok = toolReadAll(p, (int) fd, data, 65536);
    k_close(p, (int) fd);
    return ok;
}
static void say(Proc& p, const std::string& s) { toolWriteAll(p, 2, s, 4096); }

static std::string base(const std::string& p) { size_t k = p.rfind('/'); return k == std::string::npos ? p : p.substr(k + 1); }
static std::string head(const char* kind, const std::string& flags, size_t n) { return std::string(kind) + " " + flags + " " + std::to_string(n) + "\n"; }

bool parseObj(const std::string& file, Obj& o) {
    if (file.compare(0, 5, "OBJ1 ") != 0) return false;
    size_t e = file.find('\n');
    if (e == std::string::npos) return false;
    char fl[32];
    size_t n = 0;
    if (sscanf(file.c_str(), "OBJ1 %31s %zu\n", fl, &n) != 2) return false;
    if (file.size() != e + 1 + n + 4 || file.compare(e + 1 + n, 4, "END\n") != 0) return false;
    o.text = file.substr(e + 1, n);
    o.pic = strchr(fl, 'p') != nullptr;
    o.llvm = strchr(fl, 'l') != nullptr;
    return true;
}
static std::string makeObj(const Obj& o) { return head("OBJ1", std::string("o") + (o.pic ? "p" : "") + (o.llvm ? "l" : ""), o.text.size()) + o.text + "END\n"; }
bool parseLib(const std::string& file, bool& dynamic, std::vector<Obj>& objs) {
    dynamic = file.compare(0, 5, "DYN1 ") == 0;
    if (!dynamic && file.compare(0, 5, "ARC1 ") != 0) return false;
    size_t pos = file.find('\n');
    if (pos == std::string::npos) return false;
    size_t n = strtoul(file.c_str() + 5, nullptr, 10);
    pos++;
    for (size_t i = 0; i < n; ++i) {
        size_t e = file.find('\n', pos);
        if (e == std::string::npos) return false;
        char nm[512];
        size_t len = 0;
        if (sscanf(file.c_str() + pos, "MEMBER %511s %zu\n", nm, &len) != 2) return false;
        if (e + 1 + len > file.size()) return false;
        Obj o;
        if (!parseObj(file.substr(e + 1, len), o)) return false;
        o.name = nm;
        objs.push_back(o);
        pos = e + 1 + len;
    }
    return file.compare(pos, std::string::npos, "END\n") == 0;
}
static std::string makeLib(bool dyn, const std::vector<Obj>& objs) {
    std::string s = (dyn ? "DYN1 " : "ARC1 ") + std::to_string(objs.size()) + "\n";
    for (auto& o : objs) { std::string x = makeObj(o); s += "MEMBER " + o.name + " " + std::to_string(x.size()) + "\n" + x; }
    return s + "END\n";
}

static int fail(Proc& p, const std::string& why) {
    W->toolFailures++;
    say(p, why + "\n");
    return 1 + (int) choose('1', 3);
}

static int compilerMain(Proc& p, const std::string& path, const std::vector<std::string>& a) {
    bool clang = base(path).find("clang") != std::string::npos;
    std::vector<std::string> in;
    std::string out = "a.out";
    bool c = false, pic = false, llvm = false, shared = false, version = false, stdinSrc = false;
    for (size_t i = 1; i < a.size(); ++i) {
        const std::string& x = a[i];
        if (x == "-x" || x == "-o") { if (x == "-o" && i + 1 < a.size()) out = a[i + 1]; i++; }
        else if (x == "-c") c = true;
        else if (x == "-fPIC") pic = true;
        else if (x == "-emit-llvm") llvm = true;
        else if (x == "-shared") shared = true;
        else if (x == "--version") version = true;
        else if (x == "-") stdinSrc = true;
        else if (!x.empty() && x[0] == '-') continue;
        else in.push_back(x);
    }
    mayDie(p);
    if (fault('q', K_TOOLFAIL)) return fail(p, "fatal error: the tool gives up at once");
    if (version) {
        std::string pad(choose('2', 3) == 1 ? 3000 : 0, '#');
        std::string o = (clang ? "Ubuntu clang version 18.1.3 (1ubuntu1)\n" : "gcc (Ubuntu) 13.3.0\n") + pad;
        if (!toolWriteAll(p, 1, o, (size_t) 1 << choose('2', 10))) return fail(p, "cannot write");
        return 0;
    }
    if (c) {
        Obj o;
        o.pic = pic;
        o.llvm = llvm;
        if (stdinSrc) {
            if (fault('q', K_TOOLFAIL)) { // reads a part only
                std::string part(1 + (size_t) choose('z', 70000), 0);
                k_read(p, 0, &part[0], part.size());
                return fail(p, "fatal error: too many errors emitted, stopping now");
            }
            if (!toolReadAll(p, 0, o.text, (size_t) 512 << choose('2', 8))) return fail(p, "cannot read the standard input");
        } else {
            if (in.size() != 1) return fail(p, "no input files");
            if (!toolReadFile(p, in[0], o.text)) return fail(p, in[0] + ": cannot read");
        }
        if (choose('2', 8) == 1) { probe(K_BIGOUT); say(p, std::string((size_t) 1 << (8 + choose('2', 10)), 'w') + "\n"); }   // warnings
        if (o.text.find("#error") != std::string::npos) return fail(p, "error: #error");
        if (fault('q', K_TOOLFAIL)) return fail(p, "internal compiler error");
        if (!toolWriteFile(p, out, makeObj(o))) return fail(p, "cannot write " + out);
        if (fault('q', K_TOOLFAIL)) return fail(p, "error at the very end");
        mayDie(p);
        return 0;
    }
    if (shared) {
        std::vector<Obj> objs;
        if (in.empty()) return fail(p, "no input files");
        for (auto& f : in) {
            std::string d;
            Obj o;
            if (!toolReadFile(p, f, d)) return fail(p, f + ": no such file");
            if (!parseObj(d, o)) return fail(p, f + ": file format not recognized");
            if (o.llvm) return fail(p, f + ": is not an object file");
            o.name = base(f);
            objs.push_back(o);
        }
        if (fault('q', K_TOOLFAIL)) return fail(p, "ld returned 1 exit status");
        if (!toolWriteFile(p, out, makeLib(true, objs))) return fail(p, "cannot write " + out);
        if (fault('q', K_TOOLFAIL)) return fail(p, "collect2: error");
        mayDie(p);
        return 0;
    }
    return fail(p, "no input files");
}

static int arMain(Proc& p, const std::vector<std::string>& a) {
    mayDie(p);
    if (a.size() < 3) return fail(p, "usage");
    if (fault('q', K_TOOLFAIL)) return fail(p, "ar: gives up");
    std::vector<std::string> in;
    std::string lib;
    for (size_t i = 2; i < a.size(); ++i) {
        if (!a[i].empty() && a[i][0] == '-') continue;
        if (lib.empty()) lib = a[i]; else in.push_back(a[i]);
    }
    std::vector<Obj> objs;
    if (find(norm(lib))) {      // replaces members of an existing archive, keeps the others
        std::string d;
        bool dyn;
        if (!toolReadFile(p, lib, d)) return fail(p, lib + ": cannot read");
        if (!parseLib(d, dyn, objs) || dyn) return fail(p, lib + ": file format not recognized");
    }
    for (auto& f : in) {
        std::string d;
        Obj o;
        if (!toolReadFile(p, f, d)) return fail(p, f + ": no such file");
        if (!parseObj(d, o)) return fail(p, f + ": file format not recognized");
        o.name = base(f);
        bool done = false;
        for (auto& x : objs) if (x.name == o.name) { x = o; done = true; }
        if (!done) objs.push_back(o);
    }
    if (fault('q', K_TOOLFAIL)) return fail(p, "ar: error");
    if (!toolWriteFile(p, lib, makeLib(false, objs))) return fail(p, "cannot write " + lib);
    if (fault('q', K_TOOLFAIL)) return fail(p, "ar: error at the very end");
    return 0;
}

static int scriptMain(Proc& p, const std::vector<std::string>& a) {
    g_scriptOut.clear();
    for (size_t i = 1; i < a.size(); ++i) {
        std::string c = a[i].substr(0, a[i].find(':'));
        long v = a[i].find(':') == std::string::npos ? 0 : atol(a[i].c_str() + a[i].find(':') + 1);
        mayDie(p);
        if (c == "read") {
            std::vector<char> b((size_t) v + 1);
            long left = v;
            while (left > 0) { long k = k_read(p, 0, b.data(), (size_t) left); if (k <= 0) break; left -= k; }
        } else if (c == "readall") { std::string s; toolReadAll(p, 0, s, 4096); }
        else if (c == "out" || c == "err") {
            std::string s((size_t) v, c == "out" ? 'o' : 'e');
            if (v > 60000) probe(K_BIGOUT);
            for (size_t k = 0; k < s.size(); k += 61) s[k] = (char) ('0' + (k / 61) % 10);
            bool ok = toolWriteAll(p, c == "out" ? 1 : 2, s, 4096);
            g_scriptOut += s;
            if (!ok) return 2;
        } else if (c == "outforever") {
            std::string s(65536, 'O');
            probe(K_BIGOUT);
            for (;;) {
                long k = k_write(p, (int) v, s.data(), s.size());
                if (k < 0) return 3;
                advance(1000000);
            }
        } else if (c == "closein") k_close(p, 0);
        else if (c == "closeout") { k_close(p, 1); k_close(p, 2); }
        else if (c == "sleep") sleepNs((uint64_t) v * 1000000);
        else if (c == "kill") throw Death{(int) v};
        else if (c == "daemon") { // a background process which keeps the inherited descriptors and never ends
            probe(K_DAEMON);
            Proc* d = new Proc();
            d->pid = W->nextPid++;
            d->ppid = 1;
            d->tool = d->daemon = true;
            d->fds = p.fds;
            for (auto& kv : d->fds) kv.second.of->refs++;
            for (int s = 0; s < 3; ++s) { auto it = d->fds.find(s); if (it != d->fds.end()) { unref(it->second.of); d->fds.erase(it); } }
            W->procs.push_back(d);
        } else if (c == "exit") return (int) v;
    }
    return 0;
}

static void runTool(Proc& p, const std::string& path, const std::vector<std::string>& argv) {
    p.name = base(path);
    int code = 0;
    if (p.name == "gcc" || p.name == "clang") code = compilerMain(p, path, argv);
    else if (p.name == "ar") code = arMain(p, argv);
    else if (p.name == "script") code = scriptMain(p, argv);
    else code = 127;
    if (code) W->toolFailures++;
    p.status = (code & 0xff) << 8;
}

// ---------------------------------------------------------------- the client's buffered output and exit handlers
static std::string* g_out = nullptr;
static int g_handlers = 0;
void addExitHandler() { g_handlers++; }
static bool simulated() { return g_child || active(); }

static long doWrite(int fd, const void* b, size_t n) {
    if (g_child) return rpc(R_WRITE, fd, 0, 0, b, n);
    long r = k_write(*CL, fd, b, n);
    if (r < 0) { errno = (int) -r; return -1; }
    return r;
}
static void flushOut() {
    Own o;
    std::string s;
    s.swap(*g_out);
    size_t i = 0;
    while (i < s.size()) { long k = doWrite(1, s.data() + i, s.size() - i); if (k <= 0) break; i += (size_t) k; }
}
void flushStdout() { flushOut(); }
static void outWrite(FILE* f, const char* b, size_t n) {
    Own o;
    if (f == stderr) { doWrite(2, b, n); return; }
    g_out->append(b, n);
    if (g_out->size() > 4096 || (W->opt.lineBuffered && memchr(b, '\n', n))) flushOut();
}

struct FakeFile { uint64_t magic; int fd; bool err; };
static const uint64_t FMAGIC = 0x46414b4546494c45ull;
static FakeFile* fake(FILE* f) {
    if (f == nullptr || f == stdout || f == stderr || f == stdin) return nullptr;
    FakeFile* x = (FakeFile*) f;
    return x->magic == FMAGIC ? x : nullptr;
}

// ---------------------------------------------------------------- harness helpers
void boot(const Options& o) {
    Own own;
    W = new World();
    W->opt = o;
    g_out = new std::string();
    g_handlers = 0;
    CL = new Proc();
    CL->pid = 50;
    CL->client = true;
    CL->sigpipe = o.sigpipe;
    W->procs.push_back(CL);
    OpenFile* t = new OpenFile();
    t->kind = F_TTY;
    t->refs = 0;
    t->flags = O_RDWR;
    for (int fd = 0; fd < 3; ++fd) {
        if (o.closedStd == 1 && fd == 0) continue;
        t->refs++;
        CL->fds[fd] = Fd{t, false};
    }
    for (const char* d : {"/", "/work", "/usr", "/usr/bin", "/tools"}) { auto i = std::make_shared<Inode>(); i->dir = true; W->fs[d] = i; }
    for (const char* f : {"/usr/bin/gcc", "/usr/bin/clang", "/usr/bin/ar", "/tools/script"}) put(f, "#TOOL");
}
int liveChildren() {
    int n = 0;
    for (Proc* p : W->procs) if (p->ppid == CL->pid && !p->reaped) n++;
    return n;
}
std::string fdList() {
    Own own;
    std::string s;
    for (auto& kv : CL->fds) s += std::to_string(kv.first) + (kv.second.cloexec ? "c " : " ");
    return s;
}
bool exists(const std::string& path) { Own own; return find(norm(path)) != nullptr; }
std::vector<std::string> listDir(const std::string& dir) {
    Own own;
    std::vector<std::string> v;
    std::string n = norm(dir) + "/";
    for (auto it = W->fs.lower_bound(n); it != W->fs.end() && it->first.compare(0, n.size(), n) == 0; ++it) v.push_back(it->first.substr(n.size()));
    return v;
}
void put(const std::string& path, const std::string& data) {
    Own own;
    auto i = std::make_shared<Inode>();
    i->data = data;
    W->fs[norm(path)] = i;
}
void mkDirs(const std::string& path) {
    Own own;
    auto i = std::make_shared<Inode>();
    i->dir = true;
    W->fs[norm(path)] = i;
}
std::string get(const std::string& path) {
    Own own;
    auto i = find(norm(path));
    return i && !i->dir ? i->data : std::string();
}
uint64_t injected() {
    uint64_t n = 0;
    for (int k = K_PIPEFAIL; k <= K_TOOLFAIL; ++k) n += g_sh->counters[k];
    return n + g_sh->counters[C_BADALLOC];
}
uint64_t toolFailed() { return W->toolFailures; }
void childEscaped(const char* where) { rpc(R_ESCAPE, 0, 0, 0, where, strlen(where)); }

static long ret(long r) { if (r < 0) { errno = (int) -r; return -1; } return r; }

} // namespace osim

using namespace osim;

#define NEXT(ret, name, args) static ret(*next_##name) args = nullptr; \
    if (!next_##name) next_##name = reinterpret_cast<ret(*) args>(dlsym(RTLD_NEXT, #name));

extern "C" {
// ---------------------------------------------------------------- interposed: used by libstdc++'s streams
FILE* fopen(const char* path, const char* mode) {
    if (!simulated()) { NEXT(FILE*, fopen, (const char*, const char*)) return next_fopen(path, mode); }
    Own own;
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    if (strchr(mode, 'e')) fl |= O_CLOEXEC;
    long fd = g_child ? rpc(R_OPEN, fl, 0, 0, path, strlen(path)) : ret(k_open(*CL, path, fl));
    if (fd < 0) return nullptr;
    FakeFile* f = (FakeFile*) malloc(sizeof(FakeFile) + 256);
    memset(f, 0, sizeof(FakeFile) + 256);
    f->magic = FMAGIC;
    f->fd = (int) fd;
    return (FILE*) f;
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
int fileno(FILE* f) {
    if (simulated()) { if (FakeFile* x = fake(f)) return x->fd; if (f == stdin) return 0; if (f == stdout) return 1; if (f == stderr) return 2; }
    NEXT(int, fileno, (FILE*)) return next_fileno(f);
}
int fclose(FILE* f) {
    if (simulated()) if (FakeFile* x = fake(f)) {
        Own own;
        long r = g_child ? rpc(R_CLOSE, x->fd) : ret(k_close(*CL, x->fd));
        int e = errno;
        x->magic = 0;
        free(x);
        errno = e;
        return r < 0 ? EOF : 0;
    }
    NEXT(int, fclose, (FILE*)) return next_fclose(f);
}
int fflush(FILE* f) {
    if (simulated()) {
        if (f == nullptr || f == stdout) { flushOut(); return 0; }
        if (f == stderr || fake(f)) return 0;
    }
    NEXT(int, fflush, (FILE*)) return next_fflush(f);
}
size_t fwrite(const void* b, size_t sz, size_t n, FILE* f) {
    if (simulated()) {
        if (f == stdout || f == stderr) { outWrite(f, (const char*) b, sz * n); return n; }
        if (FakeFile* x = fake(f)) {
            Own own;
            size_t done = 0;
            while (done < sz * n) { long k = doWrite(x->fd, (const char*) b + done, sz * n - done); if (k <= 0) { x->err = true; break; } done += (size_t) k; }
            return sz ? done / sz : 0;
        }
    }
    NEXT(size_t, fwrite, (const void*, size_t, size_t, FILE*)) return next_fwrite(b, sz, n, f);
}
int putc(int c, FILE* f) {
    if (simulated() && (f == stdout || f == stderr || fake(f))) { char ch = (char) c; return fwrite(&ch, 1, 1, f) == 1 ? (unsigned char) c : EOF; }
    NEXT(int, putc, (int, FILE*)) return next_putc(c, f);
}
int fputc(int c, FILE* f) {
    if (simulated() && (f == stdout || f == stderr || fake(f))) return putc(c, f);
    NEXT(int, fputc, (int, FILE*)) return next_fputc(c, f);
}
int fputs(const char* s, FILE* f) {
    if (simulated() && (f == stdout || f == stderr || fake(f))) { size_t n = strlen(s); return fwrite(s, 1, n, f) == n ? 1 : EOF; }
    NEXT(int, fputs, (const char*, FILE*)) return next_fputs(s, f);
}
int setvbuf(FILE* f, char* b, int m, size_t n) {
    if (simulated()) return 0;
    NEXT(int, setvbuf, (FILE*, char*, int, size_t)) return next_setvbuf(f, b, m, n);
}
ssize_t write(int fd, const void* b, size_t n) {
    if (simulated()) { Own own; return doWrite(fd, b, n); }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
    if (!simulated()) return syscall(SYS_writev, fd, v, n);
    Own own;
    std::string s;
    for (int i = 0; i < n; ++i) s.append((const char*) v[i].iov_base, v[i].iov_len);
    return doWrite(fd, s.data(), s.size());
}
ssize_t read(int fd, void* b, size_t n) {
    if (!simulated()) return syscall(SYS_read, fd, b, n);
    Own own;
    if (g_child) return rpc(R_READ, fd, (long) n, 0, nullptr, 0, b, n);
    return ret(k_read(*CL, fd, b, n));
}

// ---------------------------------------------------------------- renamed references of the system under test
ssize_t sim_read(int fd, void* b, size_t n) { return read(fd, b, n); }
ssize_t sim_write(int fd, const void* b, size_t n) { return write(fd, b, n); }
int sim_close(int fd) {
    if (!simulated()) return (int) syscall(SYS_close, fd);
    Own own;
    return (int) (g_child ? rpc(R_CLOSE, fd) : ret(k_close(*CL, fd)));
}
static int pipeFlags(int fd[2], int fl) {
    Own own;
    if (g_child) return (int) rpc(R_PIPE, fl, 0, 0, nullptr, 0, fd, 2 * sizeof(int));
    return (int) ret(k_pipe(*CL, fd, fl));
}
int sim_pipe(int fd[2]) { return pipeFlags(fd, 0); }
int sim_pipe2(int fd[2], int fl) { return pipeFlags(fd, fl); }
int sim_dup2(int a, int b) { Own own; return (int) (g_child ? rpc(R_DUP2, a, b, 2) : ret(k_dup2(*CL, a, b, false, true))); }
int sim_dup3(int a, int b, int fl) { Own own; return (int) (g_child ? rpc(R_DUP2, a, b, (fl & O_CLOEXEC) ? 1 : 0) : ret(k_dup2(*CL, a, b, (fl & O_CLOEXEC) != 0, false))); }
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    Own own;
    return (int) (g_child ? rpc(R_FCNTL, fd, cmd, arg) : ret(k_fcntl(*CL, fd, cmd, arg)));
}
int sim_dup(int a) { return sim_fcntl(a, F_DUPFD, 0L); }
int sim_fork(void) {
    if (g_child) infra("fork in a forked child");
    Own* own = new Own();
    long r = k_fork();
    delete own;
    return (int) ret(r);
}
int sim_vfork(void) { return sim_fork(); }
int sim_execv(const char* path, char* const argv[]) {
    std::string s(path);
    s.push_back(0);
    for (size_t i = 0; argv[i]; ++i) { s += argv[i]; s.push_back(0); }
    if (!g_child) violation("exec-in-caller", "the calling process itself executes a tool");
    return (int) rpc(R_EXEC, 0, 0, 0, s.data(), s.size());
}
int sim_execve(const char* path, char* const argv[], char* const*) { return sim_execv(path, argv); }
int sim_execvp(const char* path, char* const argv[]) { return sim_execv(path, argv); }
void sim__exit(int c) {
    if (g_child) rpc(R_EXIT, c);
    if (active()) violation("process-exit", "the calling process is ended (status %d)", c);
    syscall(SYS_exit_group, c);
    __builtin_unreachable();
}
void sim__Exit(int c) { sim__exit(c); }
void sim_tool_exit(int c) {
    if (g_child) {
        if (g_handlers) rpc(R_HANDLER);
        flushOut();
        rpc(R_EXIT, c);
    }
    if (active()) violation("process-exit", "the calling process is ended (status %d)", c);
    exit(c);
}
void sim_tool_abort(void) {
    if (g_child) rpc(R_KILL, SIGABRT);
    if (active()) violation("process-abort", "the calling process is aborted");
    abort();
}
pid_t sim_waitpid(pid_t pid, int* st, int opt) {
    Own own;
    if (g_child) { errno = ECHILD; return -1; }
    return (pid_t) ret(k_waitpid(*CL, pid, st, opt));
}
pid_t sim_wait(int* st) { return sim_waitpid(-1, st, 0); }
int sim_kill(pid_t, int) { return 0; }
int sim_poll(struct pollfd* v, nfds_t n, int t) { Own own; if (g_child) infra("poll in a forked child"); return (int) ret(k_poll(*CL, v, n, t)); }
int sim_open(const char* path, int fl, ...) { Own own; return (int) (g_child ? rpc(R_OPEN, fl, 0, 0, path, strlen(path)) : ret(k_open(*CL, path, fl))); }
int sim_open64(const char* path, int fl, ...) { return sim_open(path, fl); }
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return sim_fcntl(fd, cmd, arg); }
ssize_t sim_read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
int sim_mkdir(const char* path, mode_t) { Own own; return (int) (g_child ? rpc(R_MKDIR, 0, 0, 0, path, strlen(path)) : ret(k_mkdir(*CL, path))); }
int sim_remove(const char* path) { Own own; return (int) (g_child ? rpc(R_REMOVE, 2, 0, 0, path, strlen(path)) : ret(k_remove(*CL, path, 2))); }
int sim_unlink(const char* path) { Own own; return (int) (g_child ? rpc(R_REMOVE, 0, 0, 0, path, strlen(path)) : ret(k_remove(*CL, path, 0))); }
int sim_rmdir(const char* path) { Own own; return (int) (g_child ? rpc(R_REMOVE, 1, 0, 0, path, strlen(path)) : ret(k_remove(*CL, path, 1))); }
int sim_rename(const char* a, const char* b) { Own own; if (g_child) infra("rename in a forked child"); return (int) ret(k_rename(*CL, a, b)); }
int sim_stat(const char* path, struct stat* st) { Own own; return (int) (g_child ? rpc(R_STAT, 0, 0, 0, path, strlen(path), st, sizeof *st) : ret(k_stat(*CL, path, st))); }
int sim_stat64(const char* path, struct stat* st) { return sim_stat(path, st); }
int sim_access(const char* path, int) { struct stat st; return sim_stat(path, &st); }
char* sim_getcwd(char* b, size_t n) { if (n < 6) { errno = ERANGE; return nullptr; } strcpy(b, CWD); return b; }
void sim_tool_perror(const char* s) { Own own; std::string m = std::string(s) + ": " + strerror(errno) + "\n"; doWrite(2, m.data(), m.size()); }
// signals: SIGPIPE is modelled
static bool hasPipe(const sigset_t* s) { return s && sigismember(s, SIGPIPE) == 1; }
int sim_pthread_sigmask(int how, const sigset_t* set, sigset_t* old) {
    Own own;
    if (g_child) {
        long was = rpc(R_SIGMASK, set ? (how == SIG_SETMASK ? hasPipe(set) : hasPipe(set) ? how == SIG_BLOCK : -1) : -1);
        if (old) { sigemptyset(old); if (was > 0) sigaddset(old, SIGPIPE); }
        return 0;
    }
    point();
    if (old) { sigemptyset(old); if (t_blocked) sigaddset(old, SIGPIPE); }
    if (set) {
        if (how == SIG_SETMASK) t_blocked = hasPipe(set);
        else if (hasPipe(set)) t_blocked = how == SIG_BLOCK;
        if (!t_blocked && t_pending) {
            t_pending = false;
            if (CL->sigpipe == 0) violation("killed-by-signal", "the calling process is killed by a pending SIGPIPE");
        }
    }
    return 0;
}
int sim_sigprocmask(int how, const sigset_t* set, sigset_t* old) { return sim_pthread_sigmask(how, set, old); }
int sim_sigpending(sigset_t* s) { sigemptyset(s); if (t_pending) sigaddset(s, SIGPIPE); return 0; }
static int takePending(const sigset_t* s) { if (t_pending && hasPipe(s)) { t_pending = false; return SIGPIPE; } return 0; }
int sim_sigwait(const sigset_t* s, int* sig) {
    int k = takePending(s);
    if (!k) { static char never; blockOn(&never); }
    *sig = k;
    return 0;
}
int sim_sigtimedwait(const sigset_t* s, siginfo_t*, const struct timespec*) {
    if (fault('e', K_EINTR)) { errno = EINTR; return -1; }
    int k = takePending(s);
    if (!k) { errno = EAGAIN; return -1; }
    return k;
}
static int dispOf(void (*h)(int)) { return h == SIG_DFL ? 0 : h == SIG_IGN ? 1 : 2; }
static void (*g_handler)(int) = SIG_DFL;
static void (*setDisp(void (*h)(int)))(int) {
    void (*old)(int) = CL->sigpipe == 0 ? SIG_DFL : CL->sigpipe == 1 ? SIG_IGN : g_handler;
    CL->sigpipe = dispOf(h);
    if (CL->sigpipe == 2) g_handler = h;
    return old;
}
void (*sim_signal(int sig, void (*h)(int)))(int) {
    if (sig != SIGPIPE) return SIG_DFL;
    if (g_child) { rpc(R_SIGPIPE, dispOf(h)); return SIG_DFL; }
    point();
    return setDisp(h);
}
int sim_sigaction(int sig, const struct sigaction* a, struct sigaction* old) {
    if (sig != SIGPIPE) return 0;
    if (g_child) { if (a) rpc(R_SIGPIPE, dispOf(a->sa_handler)); return 0; }
    point();
    if (old) { memset(old, 0, sizeof *old); old->sa_handler = CL->sigpipe == 0 ? SIG_DFL : CL->sigpipe == 1 ? SIG_IGN : g_handler; }
    if (a) setDisp(a->sa_handler);
    return 0;
}

// ---------------------------------------------------------------- loader
struct FakeLib { std::string path; int refs; };
static std::string* g_dlerr = nullptr;
static bool g_dlerrSet = false;
static int stubInt() { return 1; }
unsigned long sim_apiVersion = 0;
static unsigned long stubVersion() { return sim_apiVersion; }
static void stubModels(char const* const** names, int* n) { static const char* const none[] = {nullptr}; *names = none; *n = 0; }
static void stubVoid() {}
static int g_dlOpen = 0;
void* sim_dlopen(const char* path, int) {
    Own own;
    if (!g_dlerr) g_dlerr = new std::string();
    point();
    bool dyn = false;
    std::vector<Obj> objs;
    std::string p = path;
    if (p.find('/') == std::string::npos && !exists(p)) { *g_dlerr = p + ": cannot open shared object file"; g_dlerrSet = true; return nullptr; }
    if (!parseLib(get(p), dyn, objs) || !dyn) { *g_dlerr = p + ": invalid ELF header"; g_dlerrSet = true; return nullptr; }
    g_dlOpen++;
    return new FakeLib{p, 1};
}
const char* sim_loadedPath(void* h) { return ((FakeLib*) h)->path.c_str(); }
char* sim_dlerror(void) { if (!g_dlerrSet) return nullptr; g_dlerrSet = false; return &(*g_dlerr)[0]; }
void* sim_dlsym(void* h, const char* n) {
    Own own;
    if (!strcmp(n, "cppad_cg_version")) return (void*) stubVersion;
    if (!strcmp(n, "cppad_cg_models")) return (void*) stubModels;
    if (!strncmp(n, "cppad_cg_", 9)) return strstr(n, "_is_") || strstr(n, "_get_") ? (void*) stubInt : (void*) stubVoid;
    *g_dlerr = std::string("undefined symbol: ") + n;
    g_dlerrSet = true;
    return nullptr;
}
int sim_dlclose(void* h) { Own own; point(); g_dlOpen--; delete (FakeLib*) h; return 0; }
int sim_openLibs() { return g_dlOpen; }
} // extern "C"
