#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vx.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <set>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_set>

#define REAL(ret, name, ...) \
    typedef ret (*name##_t)(__VA_ARGS__); \
    static name##_t real_##name() { static name##_t f = (name##_t) dlsym(RTLD_NEXT, #name); return f; }

REAL(int, open64, const char *, int, ...)
REAL(int, openat64, int, const char *, int, ...)
REAL(int, close, int)
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, pread64, int, void *, size_t, off64_t)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(ssize_t, readv, int, const struct iovec *, int)
REAL(ssize_t, pwritev64, int, const struct iovec *, int, off64_t)
REAL(off64_t, lseek64, int, off64_t, int)
REAL(int, fstat64, int, struct stat64 *)
REAL(int, stat64, const char *, struct stat64 *)
REAL(int, lstat64, const char *, struct stat64 *)
REAL(int, fstatat64, int, const char *, struct stat64 *, int)
REAL(int, ftruncate64, int, off64_t)
REAL(int, rename, const char *, const char *)
REAL(int, unlink, const char *)
REAL(int, mkdir, const char *, mode_t)
REAL(int, rmdir, const char *)
REAL(DIR *, opendir, const char *)
REAL(struct dirent64 *, readdir64, DIR *)
REAL(int, closedir, DIR *)
REAL(int, chmod, const char *, mode_t)
REAL(int, chown, const char *, uid_t, gid_t)
REAL(int, utimes, const char *, const struct timeval *)
REAL(int, fcntl64, int, int, ...)
REAL(void *, mmap64, void *, size_t, int, int, int, off64_t)
REAL(int, socket, int, int, int)
REAL(int, ioctl, int, unsigned long, ...)
REAL(int, epoll_create, int)
REAL(pid_t, fork, void)
REAL(int, kill, pid_t, int)
REAL(int, posix_fadvise64, int, off64_t, off64_t, int)
REAL(int, clock_gettime, clockid_t, struct timespec *)
REAL(int, dup2, int, int)

namespace vx {

// nginx replaces its environment, so it is copied at start
static std::map<std::string, std::string> &envmap() { static std::map<std::string, std::string> m; return m; }
static const char *genv(const char *n) { auto it = envmap().find(n); return it == envmap().end() ? nullptr : it->second.c_str(); }

static const int SOCK_BASE = 100000, FILE_BASE = 500000000;
static bool on;            // virtualisation active (always, in nginx)
static bool armed;         // the event loop was reached
static bool in_engine;     // our own calls go to the real thing

// ------------------------------------------------------------ shared results
static const int MAXC = 4096, MSGSZ = 8192, NOTESZ = 32768;
struct Shm {
    int npre; uint16_t pre[MAXC];
    int n; uint16_t c[MAXC], a[MAXC];
    int status;             // 0 running, 1 ok, 2 fail, 3 prune
    char msg[MSGSZ];
    int nnote; char notes[NOTESZ];
    uint64_t pumps, obs, xstates, xtrans, xcases; int cut; int nxob; uint64_t xob[1 << 15];
    int nknown; char known[8][160];
};
struct Global {
    std::atomic<int> next_root;
    std::atomic<int> nviol, nflaky;
    std::atomic<int> stop;
    std::atomic<uint64_t> execs;
};
static Shm *shm;
static Global *G;
static std::set<std::string> knowns;
static const Scenario *scen;
static int root_id;

static uint64_t fnv(uint64_t h, const void *p, size_t n)
{
    const unsigned char *c = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

[[noreturn]] static void finish(int status)
{
    shm->status = status;
    _exit(status == 2 ? 9 : 0);
}

static Enum *cur_enum;
int choose(int n, const char *what)
{
    (void) what;
    if (n <= 1) return 0;
    if (cur_enum) return cur_enum->choose(n);
    int i = shm->n;
    if (i >= MAXC) fail("engine: too many choices");
    int v = i < shm->npre ? shm->pre[i] : 0;
    if (v >= n) fail("engine: nondeterministic replay (choice %d of %d at %d: %s)", v, n, i, what);
    shm->c[i] = (uint16_t) v;
    shm->a[i] = (uint16_t) n;
    shm->n = i + 1;
    return v;
}
void prune() { finish(3); }
void fail(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vsnprintf(shm->msg, MSGSZ, fmt, ap);
    va_end(ap);
    if (cur_enum) { std::string e = " [case " + cur_enum->str() + "]"; strncat(shm->msg, e.c_str(), MSGSZ - 1 - strlen(shm->msg)); }
    finish(2);
}
void note(const char *fmt, ...)
{
    if (shm->nnote >= NOTESZ - 2) return;
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(shm->notes + shm->nnote, NOTESZ - 1 - shm->nnote, fmt, ap);
    va_end(ap);
    if (k > NOTESZ - 2 - shm->nnote) k = NOTESZ - 2 - shm->nnote;
    shm->nnote += k;
    shm->notes[shm->nnote++] = '\n';
    shm->notes[shm->nnote] = 0;
}
void observe(const std::string &s) { shm->obs = fnv(shm->obs ^ s.size(), s.data(), s.size()); }
void observe_u64(uint64_t v) { shm->obs = fnv(shm->obs, &v, 8); }
void count(uint64_t s, uint64_t t, uint64_t c) { shm->xstates += s; shm->xtrans += t; shm->xcases += c; }
bool known(const char *key)
{
    if (!knowns.count(key)) return false;
    for (int i = 0; i < shm->nknown; i++) if (!strcmp(shm->known[i], key)) return true;
    if (shm->nknown < 8) snprintf(shm->known[shm->nknown++], 160, "%s", key);
    return true;
}
bool thorough() { static int t = -1; if (t < 0) { const char *e = genv("VX_TIER"); t = e && !strcmp(e, "thorough"); } return t; }
int tier_pick(int q, int t) { return thorough() ? t : q; }
const char *arg(const char *name, const char *d) { std::string k = std::string("VXA_") + name; const char *e = genv(k.c_str()); return e ? e : d; }

int Enum::choose(int n)
{
    if (n <= 1) return 0;
    int v = pos < pre.size() ? pre[pos] : 0;
    cur.push_back(v); ar.push_back(n); pos++;
    return v;
}
bool Enum::next()
{
    while (!cur.empty() && cur.back() + 1 >= ar.back()) { cur.pop_back(); ar.pop_back(); }
    if (cur.empty()) return false;
    cur.back()++;
    pre = cur; cur.clear(); ar.clear(); pos = 0;
    return true;
}
static double rt();
static double g_deadline;
static void arm_cpu()
{
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = genv("VX_CPU") ? atoi(genv("VX_CPU")) : 60;
    syscall(SYS_setitimer, ITIMER_PROF, &it, nullptr);
}
void batch(const std::function<void()> &body)
{
    unsigned cases = 0;
    Enum e; size_t prev = 0; uint64_t o0 = shm->obs, all = o0; std::unordered_set<uint64_t> seen; int base = -1;
    do {
        if ((++cases & 255) == 0) { arm_cpu(); if (g_deadline > 0 && rt() > g_deadline) { shm->cut = 1; break; } }
        cur_enum = &e;
        shm->obs = o0;
        body();
        cur_enum = nullptr;
        if (seen.insert(shm->obs).second && shm->nxob < (1 << 15)) shm->xob[shm->nxob++] = shm->obs;
        all = fnv(all, &shm->obs, 8);
        size_t common = prev ? e.pre.size() - 1 : 0;
        shm->xstates += e.cur.size() - std::min(common, e.cur.size()) + 1; shm->xcases++;
        prev = e.cur.size();
        if (base < 0) base = std::min(shm->nnote, 1500);
        shm->nnote = base; shm->notes[base] = 0;
    } while (e.next());
    shm->obs = all;
}
std::string Enum::str() const { std::string s; for (int v : cur) s += std::to_string(v) + " "; return s; }

// ------------------------------------------------------------ time
static uint64_t clk_us = 1700000000ull * 1000000;
static uint64_t advance_left = 0;
static bool advancing = false;
static long last_timeout = -1;
static ucontext_t uc_main, uc_scen;
static bool scen_done;
uint64_t now_ms() { return clk_us / 1000; }
static int zero_spins;

static void to_nginx() { swapcontext(&uc_scen, &uc_main); }
std::function<void()> after_pump;
std::function<Conn(const std::string &, const std::string &)> dial;
void pump() { shm->pumps++; to_nginx(); static bool in; if (after_pump && !in) { in = true; after_pump(); in = false; } }
void advance(uint64_t ms) { shm->pumps++; advancing = true; advance_left = ms; to_nginx(); }
long next_timer() { return last_timeout; }

// ------------------------------------------------------------ sockets
static std::map<int, Conn> socks;
static int next_sock = SOCK_BASE;
static std::deque<Conn> evq;      // order in which events became pending
static std::vector<Conn> listen_list;
static std::vector<Conn> pend_conn;
std::function<void(Conn)> on_connect;
std::function<void(Conn, const std::string &)> on_dgram;

static Conn find(int fd) { auto it = socks.find(fd); return it == socks.end() ? nullptr : it->second; }
static Conn self(Sock *s) { return find(s->fd); }

static void raise_ev(const Conn &c, uint32_t ev)
{
    if (!c || c->closed) return;
    c->pend |= ev;
    for (auto &e : evq) if (e == c) return;
    evq.push_back(c);
}
static uint32_t readiness(const Conn &c)
{
    uint32_t r = 0;
    if (c->listening) { if (!c->acceptq.empty()) r |= EPOLLIN; return r; }
    if (c->type == SOCK_DGRAM) { r |= EPOLLOUT; if (!c->drx.empty()) r |= EPOLLIN; return r; }
    if (c->cstate == 1) return 0;
    if (c->cstate == 3) return EPOLLERR | EPOLLHUP | EPOLLIN | EPOLLOUT;
    if (c->rx.size() > c->rx_off) r |= EPOLLIN;
    if (c->rx_fin) r |= EPOLLIN | EPOLLRDHUP;
    if (c->rst) r |= EPOLLIN | EPOLLRDHUP | EPOLLERR | EPOLLHUP | EPOLLOUT;
    if (c->win != 0) r |= EPOLLOUT;
    return r;
}
void Sock::send(const std::string &b) { if (closed) return; rx += b; rx_total += b.size(); raise_ev(self(this), EPOLLIN); }
void Sock::fin() { if (closed || rx_fin) return; rx_fin = true; raise_ev(self(this), EPOLLIN | EPOLLRDHUP); }
void Sock::reset() { if (closed || rst) return; rst = true; rx.clear(); rx_off = 0; soerr = ECONNRESET; raise_ev(self(this), EPOLLIN | EPOLLRDHUP | EPOLLERR | EPOLLHUP | EPOLLOUT); }
void Sock::open_window(long n) { if (n < 0) win = -1; else if (win >= 0) win += n; raise_ev(self(this), EPOLLOUT); }
std::string Sock::take() { std::string t; t.swap(tx); return t; }

static std::string addr_str(const sockaddr_storage &sa)
{
    char b[160];
    if (sa.ss_family == AF_INET) {
        auto *s = (const sockaddr_in *) &sa; char ip[64];
        inet_ntop(AF_INET, &s->sin_addr, ip, sizeof ip);
        snprintf(b, sizeof b, "%s:%d", ip, ntohs(s->sin_port));
    } else if (sa.ss_family == AF_INET6) {
        auto *s = (const sockaddr_in6 *) &sa; char ip[64];
        inet_ntop(AF_INET6, &s->sin6_addr, ip, sizeof ip);
        snprintf(b, sizeof b, "[%s]:%d", ip, ntohs(s->sin6_port));
    } else if (sa.ss_family == AF_UNIX) {
        snprintf(b, sizeof b, "unix:%s", ((const sockaddr_un *) &sa)->sun_path);
    } else snprintf(b, sizeof b, "?");
    return b;
}
std::string Sock::peer_str() const { return addr_str(peer); }

static Conn find_listener(const std::string &w)
{
    for (auto &l : listen_list) if (!l->closed && addr_str(l->local) == w) return l; // "[::]:port" is not for the 0.0.0.0 listener
    for (auto &l : listen_list) {
        if (l->closed) continue;
        std::string s = addr_str(l->local);
        if (l->domain == AF_INET || l->domain == AF_INET6) {
            auto p = s.rfind(':'); auto q = w.rfind(':');
            std::string port = w.compare(0, 5, "unix:") == 0 ? "" : (q == std::string::npos ? w : w.substr(q + 1));
            if (s.substr(p + 1) == port) {
                std::string host = q == std::string::npos ? "" : w.substr(0, q);
                std::string lh = s.substr(0, p);
                if (host.empty() || host == lh || lh == "0.0.0.0") return l;
            }
        }
    }
    return nullptr;
}
bool listening(const std::string &w) { return !!find_listener(w); }
std::vector<std::string> listeners() { std::vector<std::string> v; for (auto &l : listen_list) if (!l->closed) v.push_back(addr_str(l->local)); return v; }
static int next_port = 40000;
Conn detached() { auto c = std::make_shared<Sock>(); c->cstate = 2; return c; }
Conn connect_to(const std::string &w, const std::string &ip, int port)
{
    if (dial) { Conn d = dial(w, ip); if (d) return d; }
    Conn l = find_listener(w);
    if (!l) fail("scenario: nothing listens on %s", w.c_str());
    auto c = std::make_shared<Sock>();
    c->domain = l->domain; c->type = SOCK_STREAM;
    c->local = l->local; c->local_len = l->local_len;
    c->cstate = 2;
    if (l->domain == AF_UNIX) {
        c->peer.ss_family = AF_UNIX; c->peer_len = sizeof(sa_family_t);
    } else if (l->domain == AF_INET6) {
        auto *s = (sockaddr_in6 *) &c->peer; s->sin6_family = AF_INET6; s->sin6_port = htons(port ? port : next_port++);
        inet_pton(AF_INET6, ip.c_str(), &s->sin6_addr); c->peer_len = sizeof *s;
    } else {
        auto *s = (sockaddr_in *) &c->peer; s->sin_family = AF_INET; s->sin_port = htons(port ? port : next_port++);
        inet_pton(AF_INET, ip.c_str(), &s->sin_addr); c->peer_len = sizeof *s;
        auto *q = (sockaddr_in *) &c->local;
        if (q->sin_addr.s_addr == 0) q->sin_addr.s_addr = htonl(0x7f000001);
    }
    c->fd = next_sock++;
    socks[c->fd] = c;
    l->acceptq.push_back(c);
    raise_ev(l, EPOLLIN);
    return c;
}
std::vector<Conn> pending_connects()
{
    std::vector<Conn> v;
    for (auto &c : pend_conn) if (!c->closed && c->cstate == 1) v.push_back(c);
    return v;
}
void accept_connect(Conn c) { if (c->cstate == 1) { c->cstate = 2; raise_ev(c, EPOLLOUT); } }
void refuse_connect(Conn c, int err) { if (c->cstate == 1) { c->cstate = 3; c->soerr = err; raise_ev(c, EPOLLERR | EPOLLHUP | EPOLLIN | EPOLLOUT); } }
std::vector<Conn> open_socks()
{
    std::vector<Conn> v;
    for (auto &p : socks) if (!p.second->listening && !p.second->closed) v.push_back(p.second);
    return v;
}

// ------------------------------------------------------------ files
struct Inode { bool dir = false; std::string data; uint64_t mtime; ino_t ino; mode_t mode = 0644; };
using IP = std::shared_ptr<Inode>;
struct VFile { IP ino; std::string path; off64_t off = 0; int flags = 0; };
static std::map<std::string, IP> vfs;
static std::map<int, VFile> vfiles;
static int next_file = FILE_BASE;
static ino_t next_ino = 1000;
static std::vector<FsOp> fslog;
static std::set<std::string> unixpaths;
std::function<int(const FsOp &)> fs_fault;
std::function<void(const char *, const std::string &)> fs_hook;
std::vector<std::string> denied;
std::vector<std::string> execs;
std::vector<std::pair<int,int>> kills;
std::vector<FsOp> &fs_log() { return fslog; }

static bool isv(const char *p) { return on && p && !strncmp(p, "/vxfs", 5) && (p[5] == 0 || p[5] == '/'); }
static std::string norm(const char *p)
{
    std::string s, r = p;
    std::vector<std::string> parts; size_t i = 0;
    while (i < r.size()) {
        size_t j = r.find('/', i); if (j == std::string::npos) j = r.size();
        std::string k = r.substr(i, j - i); i = j + 1;
        if (k.empty() || k == ".") continue;
        if (k == "..") { if (!parts.empty()) parts.pop_back(); continue; }
        parts.push_back(k);
    }
    for (auto &k : parts) s += "/" + k;
    return s.empty() ? "/" : s;
}
static std::string parent(const std::string &p) { auto q = p.rfind('/'); return q == 0 ? "/" : p.substr(0, q); }
static IP mk(bool dir) { auto i = std::make_shared<Inode>(); i->dir = dir; i->mtime = clk_us; i->ino = next_ino++; if (dir) i->mode = 0755; return i; }
static bool is_log(const std::string &p) { return p.compare(0, 10, "/vxfs/log/") == 0; }
static int mutate(FsOp op)
{
    if (!armed || is_log(op.path)) return 0;
    if (fs_fault) { int e = fs_fault(op); if (e) return e; }
    fslog.push_back(std::move(op));
    return 0;
}
static IP lookup(const std::string &p)
{
    auto it = vfs.find(p);
    return it == vfs.end() ? nullptr : it->second;
}
static void vfs_init()
{
    for (const char *d : { "/vxfs", "/vxfs/log", "/vxfs/tmp", "/vxfs/rec", "/vxfs/hls", "/vxfs/dash" }) vfs[d] = mk(true);
    if (const char *seed = genv("VX_FILES")) { // path=realfile,...
        std::string s = seed; size_t i = 0;
        while (i < s.size()) {
            size_t j = s.find(',', i); if (j == std::string::npos) j = s.size();
            std::string e = s.substr(i, j - i); i = j + 1;
            size_t q = e.find('=');
            if (q == std::string::npos) continue;
            int fd = real_open64()(e.substr(q + 1).c_str(), O_RDONLY);
            auto ino = mk(false); char b[4096]; ssize_t n;
            while (fd >= 0 && (n = real_read()(fd, b, sizeof b)) > 0) ino->data.append(b, n);
            if (fd >= 0) real_close()(fd);
            vfs[e.substr(0, q)] = ino;
        }
    }
}
bool fs_exists(const std::string &p) { return !!lookup(norm(p.c_str())); }
std::string fs_read(const std::string &p) { auto i = lookup(norm(p.c_str())); return i ? i->data : ""; }
void fs_write(const std::string &p, const std::string &d) { auto n = norm(p.c_str()); auto i = lookup(n); if (!i) vfs[n] = i = mk(false); i->data = d; i->mtime = clk_us; }
void fs_mkdir(const std::string &p) { vfs[norm(p.c_str())] = mk(true); }
void fs_unlink(const std::string &p) { vfs.erase(norm(p.c_str())); }
std::vector<std::string> fs_list(const std::string &pre)
{
    std::vector<std::string> v;
    for (auto &e : vfs) if (e.first.compare(0, pre.size(), pre) == 0) v.push_back(e.first);
    return v;
}
std::string &errlog() { static std::string empty; auto i = lookup("/vxfs/log/error.log"); return i ? i->data : empty; }

static void fill_stat(const IP &i, struct stat64 *st)
{
    memset(st, 0, sizeof *st);
    st->st_mode = (i->dir ? S_IFDIR : S_IFREG) | i->mode;
    st->st_size = (off64_t) i->data.size();
    st->st_ino = i->ino; st->st_nlink = i->dir ? 2 : 1;
    st->st_blksize = 4096; st->st_blocks = (i->data.size() + 511) / 512;
    st->st_mtim.tv_sec = i->mtime / 1000000; st->st_atim = st->st_ctim = st->st_mtim;
}

static int vopen(const std::string &p, int flags, mode_t mode)
{
    if (fs_hook && armed && !is_log(p)) fs_hook("open", p);
    IP i = lookup(p);
    if (i) {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if (i->dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
        if ((flags & O_TRUNC) && !i->dir && i->data.size()) {
            int e = mutate({ FS_TRUNC, p, "", 0, "" }); if (e) { errno = e; return -1; }
            i->data.clear(); i->mtime = clk_us;
        }
    } else {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        IP d = lookup(parent(p));
        if (!d || !d->dir) { errno = ENOENT; return -1; }
        int e = mutate({ FS_CREATE, p, "", 0, "" }); if (e) { errno = e; return -1; }
        i = mk(false); i->mode = mode & 0777; vfs[p] = i;
    }
    int fd = next_file++;
    vfiles[fd] = VFile{ i, p, 0, flags };
    return fd;
}
static ssize_t vread(VFile &f, void *b, size_t n, off64_t off)
{
    if (fs_hook && armed && !is_log(f.path)) fs_hook("read", f.path);
    if (f.ino->dir) { errno = EISDIR; return -1; }
    if (off >= (off64_t) f.ino->data.size()) return 0;
    size_t k = std::min(n, f.ino->data.size() - (size_t) off);
    memcpy(b, f.ino->data.data() + off, k);
    return (ssize_t) k;
}
std::vector<std::string> bad_fds;
static int badfd(const char *op, int fd) { bad_fds.push_back(std::string(op) + " on descriptor " + std::to_string(fd)); errno = EBADF; return -1; }
std::vector<std::string> open_files() { std::vector<std::string> r; for (auto &f : vfiles) r.push_back(f.second.path); return r; }
static ssize_t vwrite(VFile &f, const void *b, size_t n, off64_t off, bool append)
{
    if ((f.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (append) off = (off64_t) f.ino->data.size();
    int e = mutate({ FS_WRITE, f.path, "", off, std::string((const char *) b, n) });
    if (e > 0) { errno = e; return -1; }
    if (e < 0) { if ((size_t) -e < n) n = (size_t) -e; if (!fslog.empty()) {} } // short write of -e bytes
    if (f.ino->data.size() < (size_t) off + n) f.ino->data.resize((size_t) off + n, '\0');
    memcpy(&f.ino->data[off], b, n);
    f.ino->mtime = clk_us;
    return (ssize_t) n;
}

// ------------------------------------------------------------ several workers
static std::vector<std::pair<void *, size_t>> shregions;
void share_memory()
{
    for (auto &r : shregions) {
        std::string s((char *) r.first, r.second);
        if (real_mmap64()(r.first, r.second, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != r.first) fail("engine: mmap");
        memcpy(r.first, s.data(), r.second);
    }
}
int spawn(const std::function<void()> &body)
{
    pid_t p = real_fork()();
    if (p < 0) fail("engine: fork");
    if (p == 0) { syscall(SYS_prctl, 1, SIGKILL, 0, 0, 0); arm_cpu(); body(); _exit(0); }
    return p;
}
void set_now_ms(uint64_t ms) { clk_us = ms * 1000; }

// ------------------------------------------------------------ symbols
void *sym_opt(const char *n) { return dlsym(RTLD_DEFAULT, n); }
void *sym(const char *n)
{
    void *p = sym_opt(n);
    if (!p) fail("engine: symbol %s not found", n);
    return p;
}

// ------------------------------------------------------------ controller
static char *scen_stack;
static std::function<void()> scen_main;
static void tramp() { scen->run(root_id); scen_done = true; finish(1); }

static void child_main()
{
    shm->n = 0; shm->status = 0; shm->msg[0] = 0; shm->nnote = 0; shm->notes[0] = 0;
    shm->pumps = 0; shm->obs = 14695981039346656037ull; shm->xstates = shm->xtrans = shm->xcases = 0; shm->nxob = 0; shm->cut = 0; shm->nknown = 0;
    root_id = choose(scen->roots(), "root");
    getcontext(&uc_scen);
    uc_scen.uc_stack.ss_sp = scen_stack; uc_scen.uc_stack.ss_size = 4 << 20;
    uc_scen.uc_link = &uc_main;
    makecontext(&uc_scen, tramp, 0);
}

struct Stats {
    uint64_t execs = 0, nodes = 0, pumps = 0, pruned = 0, xs = 0, xt = 0, xc = 0; int depth = 0;
    std::unordered_set<uint64_t> outcomes;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> knownhits;
    std::vector<std::string> viols;
    bool complete = true;
};

static std::string jesc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o;
}
static double rt() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }

static int errfd = -1; // worker's capture of stderr
extern "C" void __sanitizer_print_stack_trace() __attribute__((weak));
static void on_cpu_limit(int)
{
    signal(SIGPROF, SIG_DFL);
    if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
    raise(SIGPROF);
}
// run one execution; returns true in the child (to go on into nginx)
static bool run_one(const std::vector<uint16_t> &pre, std::string *death)
{
    shm->npre = (int) pre.size();
    std::copy(pre.begin(), pre.end(), shm->pre);
    shm->status = 0; shm->n = 0;
    if (ftruncate(errfd, 0)) {}
    lseek(errfd, 0, SEEK_SET);
    pid_t pid = real_fork()();
    if (pid == 0) {
        struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        arm_cpu();
        signal(SIGPROF, genv("VX_ASAN") ? on_cpu_limit : SIG_DFL);
        for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL }) if (!genv("VX_ASAN")) signal(s, SIG_DFL);
        real_dup2()(errfd, 2);
        child_main();
        return true;
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    death->clear();
    if (shm->status == 0 || (WIFSIGNALED(st))) {
        char b[8192]; ssize_t k = 0;
        lseek(errfd, 0, SEEK_SET);
        k = real_read()(errfd, b, sizeof b - 1); if (k < 0) k = 0; b[k] = 0;
        char h[200];
        if (WIFSIGNALED(st)) snprintf(h, sizeof h, WTERMSIG(st) == SIGPROF ? "worker does not terminate (CPU limit, signal %d)" : "worker process died on signal %d", WTERMSIG(st));
        else snprintf(h, sizeof h, "worker process exited with status %d", WEXITSTATUS(st));
        *death = std::string(h) + (k ? std::string("\n") + b : "");
    }
    return false;
}

static void write_all(int fd, const std::string &s) { size_t i = 0; while (i < s.size()) { ssize_t k = real_write()(fd, s.data() + i, s.size() - i); if (k <= 0) return; i += k; } }

static bool is_violation(const std::string &death) { return !death.empty() || shm->status == 2; }

// returns true in a child
static bool worker(int id, Stats &S, double deadline, bool &isfinal)
{
    int R = scen->roots();
    isfinal = false;
    for (;;) {
        int root = G->next_root++;
        if (root >= R) break;
        std::vector<uint16_t> pre;
        if (R > 1) pre.push_back((uint16_t) root);
        int fixed = (int) pre.size();
        int prevlen = 0;
        for (;;) {
            if (G->stop) { S.complete = false; break; }
            if (rt() > deadline) { S.complete = false; G->stop = 1; break; }
            std::string death;
            if (run_one(pre, &death)) return true;
            S.execs++; G->execs++;
            S.pumps += shm->pumps; S.xs += shm->xstates; S.xt += shm->xtrans; S.xc += shm->xcases;
            int common = prevlen ? (int) pre.size() - 1 : 0;
            S.nodes += (uint64_t) (shm->n - common) + 1;
            prevlen = shm->n;
            if (shm->n > S.depth) S.depth = shm->n;
            for (int i = 0; i < shm->nknown; i++) S.knownhits[shm->known[i]]++;
            std::vector<uint16_t> cv(shm->c, shm->c + shm->n), av(shm->a, shm->a + shm->n);
            if (is_violation(death)) {
                std::string msg = death.empty() ? shm->msg : death;
                std::string notes(shm->notes, shm->nnote);
                // confirm by replay
                int same = 0;
                for (int k = 0; k < 2; k++) {
                    std::string d2;
                    if (run_one(cv, &d2)) return true;
                    if (is_violation(d2)) same++;
                }
                std::string v;
                for (auto x : cv) v += (v.empty() ? "" : ",") + std::to_string(x);
                std::string js = "{\"scenario\":\"" + jesc(scen->name) + "\",\"vector\":[" + v + "],\"confirmed\":" + (same == 2 ? "true" : "false") +
                    ",\"message\":\"" + jesc(msg) + "\",\"notes\":\"" + jesc(notes) + "\"}";
                S.viols.push_back(js);
                if (same == 2) { if (++G->nviol >= 6) G->stop = 1; } else G->nflaky++;
                S.complete = false;
                break; // next root
            }
            if (shm->cut) S.complete = false;
            if (shm->status == 3) S.pruned++;
            else { if (shm->nxob) S.outcomes.insert(shm->xob, shm->xob + shm->nxob); else S.outcomes.insert(shm->obs); }
            if (S.samples.size() < 2 && shm->nnote && shm->status == 1) S.samples.push_back(std::string(shm->notes, std::min(shm->nnote, 1500)));
            // next vector
            while ((int) cv.size() > fixed && cv.back() + 1 >= av.back()) { cv.pop_back(); av.pop_back(); }
            if ((int) cv.size() <= fixed) break;
            cv.back()++;
            pre = cv;
        }
    }
    isfinal = true;
    return false;
}

// returns in the children only
static void controller()
{
    const char *so = genv("VX_SCEN"), *name = genv("VX_RUN"), *out = genv("VX_OUT");
    if (!so) { fprintf(stderr, "vx: VX_SCEN not set\n"); _exit(70); }
    void *h = dlopen(so, RTLD_NOW | RTLD_GLOBAL);
    if (!h) { fprintf(stderr, "vx: %s\n", dlerror()); _exit(70); }
    auto f = (const Scenario *(*)()) dlsym(h, "vx_scenarios");
    if (!f) { fprintf(stderr, "vx: no scenarios in %s\n", so); _exit(70); }
    for (const Scenario *s = f(); s->name; s++) if (!name || !strcmp(s->name, name)) { scen = s; break; }
    if (!scen) { fprintf(stderr, "vx: no scenario %s\n", name); _exit(70); }
    if (const char *k = genv("VX_KNOWN")) {
        std::string s = k; size_t i = 0;
        while (i <= s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); if (j > i) knowns.insert(s.substr(i, j - i)); i = j + 1; }
    }
    auto shmem = [](size_t n) { return real_mmap64()(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
    G = new (shmem(sizeof(Global))) Global();
    scen_stack = (char *) real_mmap64()(nullptr, 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    double t0 = rt();
    double deadline = g_deadline = t0 + atof(genv("VX_DEADLINE") ? genv("VX_DEADLINE") : "600");

    if (const char *rv = genv("VX_REPLAY")) {
        g_deadline = 0;
        shm = (Shm *) shmem(sizeof(Shm));
        errfd = memfd_create("err", 0);
        std::vector<uint16_t> pre; std::string s = rv; size_t i = 0;
        while (i < s.size()) { pre.push_back((uint16_t) atoi(s.c_str() + i)); size_t j = s.find(',', i); if (j == std::string::npos) break; i = j + 1; }
        std::string death;
        if (const char *bn = genv("VX_BENCH")) {
            int n = atoi(bn); double b0 = rt();
            for (int k = 0; k < n; k++) if (run_one(pre, &death)) return;
            struct rusage ru; getrusage(RUSAGE_CHILDREN, &ru);
            printf("bench: %d runs %.3f ms each, user %.3f sys %.3f minflt %.0f\n", n, (rt() - b0) * 1000 / n, (ru.ru_utime.tv_sec * 1e3 + ru.ru_utime.tv_usec / 1e3) / n, (ru.ru_stime.tv_sec * 1e3 + ru.ru_stime.tv_usec / 1e3) / n, (double) ru.ru_minflt / n);
            fflush(stdout);
        }
        if (run_one(pre, &death)) return;
        std::string msg = death.empty() ? std::string(shm->status == 2 ? shm->msg : "") : death;
        std::string o = std::string(shm->notes, shm->nnote) + "\n" + (msg.empty() ? (shm->status == 3 ? "PRUNED\n" : "OK\n") : "FAIL: " + msg + "\n");
        char t[100]; snprintf(t, sizeof t, "choices %d pumps %llu obs %016llx\n", shm->n, (unsigned long long) shm->pumps, (unsigned long long) shm->obs);
        write_all(1, o + t);
        _exit(msg.empty() ? 0 : 1);
    }

    int W = genv("VX_WORKERS") ? atoi(genv("VX_WORKERS")) : 8;
    std::vector<int> fds;
    for (int w = 0; w < W; w++) {
        int mfd = memfd_create("vxres", 0);
        fds.push_back(mfd);
        pid_t p = real_fork()();
        if (p == 0) {
            shm = (Shm *) shmem(sizeof(Shm));
            errfd = memfd_create("err", 0);
            Stats S; bool fin;
            if (worker(w, S, deadline, fin)) return; // an execution
            std::string o = "{";
            char b[600];
            snprintf(b, sizeof b, "\"execs\":%llu,\"nodes\":%llu,\"pumps\":%llu,\"pruned\":%llu,\"xstates\":%llu,\"xtrans\":%llu,\"xcases\":%llu,\"depth\":%d,\"complete\":%s,\"outcomes\":[",
                (unsigned long long) S.execs, (unsigned long long) S.nodes, (unsigned long long) S.pumps, (unsigned long long) S.pruned,
                (unsigned long long) S.xs, (unsigned long long) S.xt, (unsigned long long) S.xc, S.depth, S.complete ? "true" : "false");
            o += b;
            bool first = true; size_t cnt = 0;
            for (auto x : S.outcomes) { if (++cnt > 400000) break; snprintf(b, sizeof b, "%s\"%llx\"", first ? "" : ",", (unsigned long long) x); o += b; first = false; }
            o += "],\"samples\":[";
            for (size_t i = 0; i < S.samples.size(); i++) o += (i ? ",\"" : "\"") + jesc(S.samples[i]) + "\"";
            o += "],\"known\":{"; first = true;
            for (auto &k : S.knownhits) { o += std::string(first ? "" : ",") + "\"" + jesc(k.first) + "\":" + std::to_string(k.second); first = false; }
            o += "},\"viols\":[";
            for (size_t i = 0; i < S.viols.size(); i++) o += (i ? "," : "") + S.viols[i];
            o += "]}";
            write_all(mfd, o);
            _exit(0);
        }
    }
    int bad = 0;
    for (int w = 0; w < W; w++) {
        int st; pid_t p;
        while ((p = wait(&st)) < 0 && errno == EINTR) { }
        if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++;
    }
    std::string o = "{\"scenario\":\"" + jesc(scen->name) + "\",\"rule\":\"" + jesc(scen->rule ? scen->rule : "") + "\",\"roots\":" + std::to_string(scen->roots()) + ",\"workers\":[";
    for (size_t w = 0; w < fds.size(); w++) {
        std::string s; char b[65536]; ssize_t k; lseek(fds[w], 0, SEEK_SET);
        while ((k = real_read()(fds[w], b, sizeof b)) > 0) s.append(b, k);
        o += (w ? "," : "") + (s.empty() ? std::string("null") : s);
    }
    char b[100]; snprintf(b, sizeof b, "],\"bad_workers\":%d,\"wall\":%.2f}\n", bad, rt() - t0);
    o += b;
    int fd = out ? real_open64()(out, O_WRONLY | O_CREAT | O_TRUNC, 0644) : 1;
    write_all(fd, o);
    _exit(bad ? 71 : 0);
}

static bool rdhup_test; static uint64_t rdhup_data;

static int do_epoll_wait(struct epoll_event *ev, int max, int timeout)
{
    if (rdhup_test) { rdhup_test = false; ev[0].events = EPOLLIN | EPOLLRDHUP; ev[0].data.u64 = rdhup_data; return 1; }
    if (!armed) {
        armed = true;
        fslog.clear();
        in_engine = true; controller(); in_engine = false;
        // here: a child, before its scenario started
    }
    for (;;) {
        int n = 0;
        std::deque<Conn> keep;
        while (!evq.empty() && n < max) {
            Conn c = evq.front(); evq.pop_front();
            if (c->closed || !c->reg) { if (!c->closed) { /* unregistered: readiness seen at ADD */ } c->pend = 0; continue; }
            uint32_t e;
            if (c->mask & EPOLLET) { e = c->pend & (c->mask | EPOLLERR | EPOLLHUP); c->pend = 0; }
            else { e = readiness(c) & (c->mask | EPOLLERR | EPOLLHUP); c->pend = 0; if (e) keep.push_back(c); }
            if (!e) continue;
            ev[n].events = e; ev[n].data.u64 = c->data; n++;
        }
        for (auto &c : keep) evq.push_back(c);
        if (n) { zero_spins = 0; return n; }
        if (timeout == 0) {
            if (++zero_spins > 200000) fail("the event loop never becomes idle");
            return 0;
        }
        zero_spins = 0;
        last_timeout = timeout;
        if (advancing) {
            if (timeout > 0 && (uint64_t) timeout <= advance_left) {
                clk_us += (uint64_t) timeout * 1000; advance_left -= (uint64_t) timeout;
                return 0;
            }
            if (advance_left) { clk_us += advance_left * 1000; advance_left = 0; return 0; }
            advancing = false;
        }
        swapcontext(&uc_main, &uc_scen);
    }
}
} // namespace vx

using namespace vx;

static void vx_ctor()
{
    for (char **p = environ; p && *p; p++) { std::string s = *p; auto q = s.find('='); if (q != std::string::npos) envmap()[s.substr(0, q)] = s.substr(q + 1); }
    const char *e = genv("VX_ON");
    on = e && *e == '1';
    if (on) vfs_init();
}
// after the static objects of this file
static struct VxInit { VxInit() { vx_ctor(); } } vx_init_;

extern "C" {
// ---- time
int gettimeofday(struct timeval *tv, void *tz)
{
    (void) tz;
    if (!on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    tv->tv_sec = clk_us / 1000000; tv->tv_usec = clk_us % 1000000; return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!on) return (int) syscall(SYS_clock_gettime, c, ts);
    ts->tv_sec = clk_us / 1000000; ts->tv_nsec = (clk_us % 1000000) * 1000; return 0;
}
time_t time(time_t *t) { time_t v; if (!on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } else v = clk_us / 1000000; if (t) *t = v; return v; }
int usleep(useconds_t u) { if (on) { clk_us += u; return 0; } return 0; }
static uint64_t lcg = 88172645463325252ull;
long random(void) { lcg ^= lcg << 13; lcg ^= lcg >> 7; lcg ^= lcg << 17; return (long) (lcg & 0x7fffffff); }
int rand(void) { return (int) random(); }
void srandom(unsigned) { }

// ---- processes
pid_t fork(void) { if (!on || in_engine) return real_fork()(); errno = EAGAIN; execs.push_back("fork"); return -1; }
int kill(pid_t p, int s) { if (!on || in_engine) return real_kill()(p, s); kills.push_back({ p, s }); return 0; }

// ---- sockets
int socket(int d, int t, int p)
{
    if (!on || in_engine) return real_socket()(d, t, p);
    auto c = std::make_shared<Sock>();
    c->fd = next_sock++; c->domain = d; c->type = t & 0xf;
    c->local.ss_family = d;
    socks[c->fd] = c;
    return c->fd;
}
int bind(int fd, const struct sockaddr *sa, socklen_t len)
{
    Conn c = find(fd); if (!c) { errno = EBADF; return -1; }
    memset(&c->local, 0, sizeof c->local);
    memcpy(&c->local, sa, std::min<size_t>(len, sizeof c->local)); c->local_len = len;
    if (sa->sa_family == AF_UNIX) unixpaths.insert(((const sockaddr_un *) sa)->sun_path);
    return 0;
}
int listen(int fd, int)
{
    Conn c = find(fd); if (!c) { errno = EBADF; return -1; }
    if (!c->listening) { c->listening = true; listen_list.push_back(c); }
    return 0;
}
static int do_accept(int fd, struct sockaddr *sa, socklen_t *len)
{
    Conn c = find(fd); if (!c) { errno = EBADF; return -1; }
    while (!c->acceptq.empty()) {
        Conn n = c->acceptq.front(); c->acceptq.pop_front();
        if (sa) { memcpy(sa, &n->peer, std::min<size_t>(*len, n->peer_len)); *len = n->peer_len; }
        return n->fd;
    }
    errno = EAGAIN; return -1;
}
int accept(int fd, struct sockaddr *sa, socklen_t *len) { return do_accept(fd, sa, len); }
int accept4(int fd, struct sockaddr *sa, socklen_t *len, int) { return do_accept(fd, sa, len); }
int connect(int fd, const struct sockaddr *sa, socklen_t len)
{
    Conn c = find(fd); if (!c) { errno = EBADF; return -1; }
    memset(&c->peer, 0, sizeof c->peer);
    memcpy(&c->peer, sa, std::min<size_t>(len, sizeof c->peer)); c->peer_len = len;
    if (c->type == SOCK_DGRAM) return 0;
    c->cstate = 1;
    pend_conn.push_back(c);
    if (on_connect) on_connect(c);
    if (c->cstate == 2 && c->domain == AF_UNIX) return 0;
    if (c->cstate == 3 && c->domain == AF_UNIX) { errno = c->soerr; return -1; }
    errno = EINPROGRESS; return -1;
}
static ssize_t do_recv(Conn c, void *b, size_t n, int flags)
{
    if (c->type == SOCK_DGRAM) {
        if (c->drx.empty()) { errno = EAGAIN; return -1; }
        std::string d = c->drx.front(); c->drx.pop_front();
        size_t k = std::min(n, d.size()); memcpy(b, d.data(), k); return (ssize_t) k;
    }
    if (c->rst) { errno = ECONNRESET; return -1; }
    if (c->cstate == 3) { errno = c->soerr ? c->soerr : ECONNREFUSED; return -1; }
    if (c->cstate == 1) { errno = EAGAIN; return -1; }
    if (c->rx.empty()) { if (c->rx_fin) return 0; errno = EAGAIN; return -1; }
    size_t k = std::min(n, c->rx.size() - c->rx_off);
    memcpy(b, c->rx.data() + c->rx_off, k);
    if (!(flags & MSG_PEEK)) { c->rx_off += k; if (c->rx_off == c->rx.size()) { c->rx.clear(); c->rx_off = 0; } else if (c->rx_off > 65536) { c->rx.erase(0, c->rx_off); c->rx_off = 0; } }
    return (ssize_t) k;
}
static ssize_t do_send(Conn c, const struct iovec *v, int nv)
{
    size_t want = 0; for (int i = 0; i < nv; i++) want += v[i].iov_len;
    if (c->type == SOCK_DGRAM) {
        std::string d; for (int i = 0; i < nv; i++) d.append((char *) v[i].iov_base, v[i].iov_len);
        c->dtx.push_back(d); if (on_dgram) on_dgram(c, d);
        return (ssize_t) want;
    }
    if (c->rst || c->shut_wr) { errno = EPIPE; return -1; }
    if (c->cstate == 1) { errno = EAGAIN; return -1; }
    if (c->cstate == 3) { errno = c->soerr ? c->soerr : ECONNREFUSED; return -1; }
    long ok = (long) want;
    if (c->wr_policy) { ok = c->wr_policy(*c, ok); if (ok > (long) want) ok = (long) want; }
    else if (c->win >= 0) { ok = std::min(ok, c->win); }
    if (ok <= 0 && want > 0) { errno = EAGAIN; return -1; }
    long left = ok;
    for (int i = 0; i < nv && left > 0; i++) { size_t k = std::min<size_t>(v[i].iov_len, left); c->tx.append((char *) v[i].iov_base, k); left -= k; }
    if (c->win >= 0 && !c->wr_policy) c->win -= ok;
    c->tx_total += ok;
    return ok;
}
ssize_t recv(int fd, void *b, size_t n, int flags) { Conn c = find(fd); if (!c) { errno = EBADF; return -1; } return do_recv(c, b, n, flags); }
ssize_t recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *, socklen_t *) { return recv(fd, b, n, flags); }
ssize_t send(int fd, const void *b, size_t n, int) { Conn c = find(fd); if (!c) { errno = EBADF; return -1; } struct iovec v = { (void *) b, n }; return do_send(c, &v, 1); }
ssize_t sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *, socklen_t) { return send(fd, b, n, f); }
ssize_t sendmsg(int fd, const struct msghdr *m, int) { Conn c = find(fd); if (!c) { errno = EBADF; return -1; } return do_send(c, m->msg_iov, (int) m->msg_iovlen); }
ssize_t recvmsg(int fd, struct msghdr *m, int f) { Conn c = find(fd); if (!c) { errno = EBADF; return -1; } return do_recv(c, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, f); }
int shutdown(int fd, int how) { Conn c = find(fd); if (!c) { errno = EBADF; return -1; } if (how != SHUT_RD) c->shut_wr = true; return 0; }
int setsockopt(int fd, int, int, const void *, socklen_t) { if (find(fd)) return 0; errno = EBADF; return -1; }
int getsockopt(int fd, int lvl, int opt, void *v, socklen_t *len)
{
    Conn c = find(fd); if (!c) { errno = EBADF; return -1; }
    if (lvl == SOL_SOCKET && opt == SO_ERROR) { *(int *) v = c->soerr; c->soerr = 0; *len = sizeof(int); return 0; }
    if (lvl == SOL_SOCKET && opt == SO_TYPE) { *(int *) v = c->type; *len = sizeof(int); return 0; }
    if (lvl == SOL_SOCKET && (opt == SO_RCVBUF || opt == SO_SNDBUF)) { *(int *) v = 65536; *len = sizeof(int); return 0; }
    memset(v, 0, *len); return 0;
}
int getsockname(int fd, struct sockaddr *sa, socklen_t *len) { Conn c = find(fd); if (!c) { errno = EBADF; return -1; } socklen_t k = c->local_len ? c->local_len : sizeof(sockaddr_in); memcpy(sa, &c->local, std::min(*len, k)); *len = k; return 0; }
int getpeername(int fd, struct sockaddr *sa, socklen_t *len) { Conn c = find(fd); if (!c) { errno = EBADF; return -1; } if (!c->peer_len) { errno = ENOTCONN; return -1; } memcpy(sa, &c->peer, std::min(*len, c->peer_len)); *len = c->peer_len; return 0; }
int ioctl(int fd, unsigned long req, ...)
{
    va_list ap; va_start(ap, req); void *p = va_arg(ap, void *); va_end(ap);
    Conn c = find(fd);
    if (!c) { if (fd >= SOCK_BASE) return 0; return real_ioctl()(fd, req, p); }
    if (req == FIONREAD) *(int *) p = (int) (c->rx.size() - c->rx_off);
    return 0;
}
// ---- epoll
int epoll_create(int n) { if (!on || in_engine) return real_epoll_create()(n); return real_epoll_create()(1); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *e)
{
    (void) ep;
    Conn c = find(fd);
    if (!c) {
        if (op == EPOLL_CTL_ADD && (e->events & EPOLLRDHUP)) { rdhup_test = true; rdhup_data = e->data.u64; }
        return 0;
    }
    if (op == EPOLL_CTL_DEL) { c->reg = false; c->mask = 0; return 0; }
    c->reg = true; c->mask = e->events; c->data = e->data.u64;
    uint32_t r = readiness(c) & (c->mask | EPOLLERR | EPOLLHUP);
    if (r) raise_ev(c, r);
    return 0;
}
int epoll_wait(int, struct epoll_event *ev, int max, int timeout) { return do_epoll_wait(ev, max, timeout); }

// ---- files and shared descriptors
int close(int fd)
{
    if (on && fd >= FILE_BASE) {
        auto it = vfiles.find(fd);
        if (it == vfiles.end()) return badfd(__func__, fd);
        vfiles.erase(it); return 0;
    }
    if (on && fd >= SOCK_BASE) {
        Conn c = find(fd);
        if (!c) { errno = EBADF; return -1; }
        c->closed = true; c->closed_at = now_ms(); c->reg = false; c->wr_policy = nullptr;
        socks.erase(fd);
        return 0;
    }
    if (on && armed && !in_engine && fd < 0) return badfd("close", fd);
    return real_close()(fd);
}
ssize_t read(int fd, void *b, size_t n)
{
    if (on && fd >= FILE_BASE) { auto it = vfiles.find(fd); if (it == vfiles.end()) return badfd(__func__, fd); ssize_t k = vread(it->second, b, n, it->second.off); if (k > 0) it->second.off += k; return k; }
    if (on && fd >= SOCK_BASE) return recv(fd, b, n, 0);
    return real_read()(fd, b, n);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int nv)
{
    if (on && fd >= SOCK_BASE) {
        ssize_t t = 0;
        for (int i = 0; i < nv; i++) {
            if (!v[i].iov_len) continue;
            ssize_t k = read(fd, v[i].iov_base, v[i].iov_len);
            if (k < 0) return t ? t : k;
            t += k;
            if ((size_t) k < v[i].iov_len) break;
        }
        return t;
    }
    return real_readv()(fd, v, nv);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t off)
{
    if (on && fd >= FILE_BASE) { auto it = vfiles.find(fd); if (it == vfiles.end()) return badfd(__func__, fd); return vread(it->second, b, n, off); }
    return real_pread64()(fd, b, n, off);
}
ssize_t pread(int fd, void *b, size_t n, off_t off) { return pread64(fd, b, n, off); }
ssize_t write(int fd, const void *b, size_t n)
{
    if (on && armed && !in_engine && fd < 0) return badfd("write", fd);
    if (on && fd >= FILE_BASE) {
        auto it = vfiles.find(fd); if (it == vfiles.end()) return badfd(__func__, fd);
        VFile &f = it->second;
        ssize_t k = vwrite(f, b, n, f.off, f.flags & O_APPEND);
        if (k > 0) f.off = (f.flags & O_APPEND) ? (off64_t) f.ino->data.size() : f.off + k;
        return k;
    }
    if (on && fd >= SOCK_BASE) return send(fd, b, n, 0);
    return real_write()(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off)
{
    if (on && armed && !in_engine && fd < 0) return badfd("pwrite", fd);
    if (on && fd >= FILE_BASE) { auto it = vfiles.find(fd); if (it == vfiles.end()) return badfd(__func__, fd); return vwrite(it->second, b, n, off, false); }
    return real_pwrite64()(fd, b, n, off);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return pwrite64(fd, b, n, off); }
ssize_t writev(int fd, const struct iovec *v, int nv)
{
    if (on && fd >= FILE_BASE) {
        std::string s; for (int i = 0; i < nv; i++) s.append((char *) v[i].iov_base, v[i].iov_len);
        return write(fd, s.data(), s.size());
    }
    if (on && fd >= SOCK_BASE) { Conn c = find(fd); if (!c) { errno = EBADF; return -1; } return do_send(c, v, nv); }
    return real_writev()(fd, v, nv);
}
ssize_t pwritev64(int fd, const struct iovec *v, int nv, off64_t off)
{
    if (on && fd >= FILE_BASE) { std::string s; for (int i = 0; i < nv; i++) s.append((char *) v[i].iov_base, v[i].iov_len); return pwrite64(fd, s.data(), s.size(), off); }
    return real_pwritev64()(fd, v, nv, off);
}
ssize_t pwritev(int fd, const struct iovec *v, int nv, off_t off) { return pwritev64(fd, v, nv, off); }
ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
    Conn c = find(out);
    if (!c) { errno = EBADF; return -1; }
    std::string s(std::min<size_t>(n, 1 << 20), '\0');
    off64_t o = off ? *off : 0;
    ssize_t k = pread64(in, &s[0], s.size(), o);
    if (k <= 0) return k;
    struct iovec v = { &s[0], (size_t) k };
    k = do_send(c, &v, 1);
    if (k > 0 && off) *off = o + k;
    return k;
}
off64_t lseek64(int fd, off64_t off, int wh)
{
    if (on && fd >= FILE_BASE) {
        auto it = vfiles.find(fd); if (it == vfiles.end()) return badfd(__func__, fd);
        VFile &f = it->second;
        off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f.off : (off64_t) f.ino->data.size();
        if (b + off < 0) { errno = EINVAL; return -1; }
        return f.off = b + off;
    }
    return real_lseek64()(fd, off, wh);
}
off_t lseek(int fd, off_t off, int wh) noexcept { return lseek64(fd, off, wh); }
static int real_open_guard(const char *p, int flags, mode_t mode)
{
    if (armed && !in_engine && (flags & (O_CREAT | O_WRONLY | O_RDWR | O_TRUNC)) && strncmp(p, "/dev/", 5) && strncmp(p, "/proc/self/", 11)) { denied.push_back(p); errno = EACCES; return -1; }
    return real_open64()(p, flags, mode);
}
int open64(const char *p, int flags, ...)
{
    mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    if (isv(p)) return vopen(norm(p), flags, mode);
    return real_open_guard(p, flags, mode);
}
int open(const char *p, int flags, ...)
{
    mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    if (isv(p)) return vopen(norm(p), flags, mode);
    return real_open_guard(p, flags, mode);
}
int openat64(int d, const char *p, int flags, ...)
{
    mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    if (isv(p)) return vopen(norm(p), flags, mode);
    return real_openat64()(d, p, flags, mode);
}
int fstat64(int fd, struct stat64 *st)
{
    if (on && fd >= FILE_BASE) { auto it = vfiles.find(fd); if (it == vfiles.end()) return badfd(__func__, fd); fill_stat(it->second.ino, st); return 0; }
    return real_fstat64()(fd, st);
}
int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *) st); }
static int vstat(const char *p, struct stat64 *st) { IP i = lookup(norm(p)); if (!i) { errno = ENOENT; return -1; } fill_stat(i, st); return 0; }
int stat64(const char *p, struct stat64 *st)
{
    if (isv(p)) return vstat(p, st);
    if (on && unixpaths.count(p)) { memset(st, 0, sizeof *st); st->st_mode = S_IFSOCK | 0666; return 0; }
    return real_stat64()(p, st);
}
int lstat64(const char *p, struct stat64 *st) { if (isv(p)) return vstat(p, st); return real_lstat64()(p, st); }
int fstatat64(int d, const char *p, struct stat64 *st, int f) { if (isv(p)) return vstat(p, st); return real_fstatat64()(d, p, st, f); }
int stat(const char *p, struct stat *st) { return stat64(p, (struct stat64 *) st); }
int lstat(const char *p, struct stat *st) { return lstat64(p, (struct stat64 *) st); }
int ftruncate64(int fd, off64_t n)
{
    if (on && fd >= FILE_BASE) { auto it = vfiles.find(fd); if (it == vfiles.end()) return badfd(__func__, fd); int e = mutate({ FS_TRUNC, it->second.path, "", n, "" }); if (e) { errno = e; return -1; } it->second.ino->data.resize(n, '\0'); return 0; }
    return real_ftruncate64()(fd, n);
}
#define DENY(p) do { if (on && armed && !in_engine) { denied.push_back(p); errno = EACCES; return -1; } } while (0)
int rename(const char *a, const char *b) noexcept
{
    if (isv(a) && isv(b)) {
        auto x = norm(a), y = norm(b); IP i = lookup(x);
        if (!i || !lookup(parent(y))) { errno = ENOENT; return -1; }
        int e = mutate({ FS_RENAME, x, y, 0, "" }); if (e) { errno = e; return -1; }
        vfs.erase(x); vfs[y] = i;
        if (i->dir) { std::vector<std::pair<std::string, IP>> mv; for (auto &k : vfs) if (k.first.compare(0, x.size() + 1, x + "/") == 0) mv.push_back(k); for (auto &k : mv) { vfs.erase(k.first); vfs[y + k.first.substr(x.size())] = k.second; } }
        return 0;
    }
    DENY(a); return real_rename()(a, b);
}
int unlink(const char *p) noexcept
{
    if (on && unixpaths.count(p)) return 0;
    if (isv(p)) { auto x = norm(p); IP i = lookup(x); if (!i) { errno = ENOENT; return -1; } if (i->dir) { errno = EISDIR; return -1; } int e = mutate({ FS_UNLINK, x, "", 0, "" }); if (e) { errno = e; return -1; } vfs.erase(x); return 0; }
    DENY(p); return real_unlink()(p);
}
int mkdir(const char *p, mode_t m) noexcept
{
    if (isv(p)) { auto x = norm(p); if (lookup(x)) { errno = EEXIST; return -1; } if (!lookup(parent(x))) { errno = ENOENT; return -1; } int e = mutate({ FS_MKDIR, x, "", 0, "" }); if (e) { errno = e; return -1; } vfs[x] = mk(true); return 0; }
    DENY(p); return real_mkdir()(p, m);
}
int rmdir(const char *p) noexcept
{
    if (isv(p)) {
        auto x = norm(p); IP i = lookup(x); if (!i || !i->dir) { errno = ENOENT; return -1; }
        for (auto &k : vfs) if (k.first.compare(0, x.size() + 1, x + "/") == 0) { errno = ENOTEMPTY; return -1; }
        int e = mutate({ FS_RMDIR, x, "", 0, "" }); if (e) { errno = e; return -1; }
        vfs.erase(x); return 0;
    }
    DENY(p); return real_rmdir()(p);
}
int chmod(const char *p, mode_t m) noexcept { if (isv(p) || (on && unixpaths.count(p))) return 0; DENY(p); return real_chmod()(p, m); }
int chown(const char *p, uid_t u, gid_t g) noexcept { if (isv(p)) return 0; DENY(p); return real_chown()(p, u, g); }
int utimes(const char *p, const struct timeval *tv) noexcept { if (isv(p)) return 0; DENY(p); return real_utimes()(p, tv); }
struct VDir { uint64_t magic; std::vector<std::pair<std::string, IP>> e; size_t i; struct dirent64 d; };
static std::set<void *> vdirs;
DIR *opendir(const char *p)
{
    if (isv(p)) {
        auto x = norm(p); IP i = lookup(x); if (!i || !i->dir) { errno = i ? ENOTDIR : ENOENT; return nullptr; }
        auto *d = new VDir(); d->i = 0; d->e.push_back({ ".", i }); d->e.push_back({ "..", i });
        for (auto &k : vfs) if (parent(k.first) == x && k.first != x) d->e.push_back({ k.first.substr(x.size() + 1), k.second });
        vdirs.insert(d); return (DIR *) d;
    }
    return real_opendir()(p);
}
struct dirent64 *readdir64(DIR *h)
{
    if (vdirs.count(h)) {
        auto *d = (VDir *) h; if (d->i >= d->e.size()) return nullptr;
        auto &e = d->e[d->i++]; memset(&d->d, 0, sizeof d->d);
        d->d.d_ino = e.second->ino; d->d.d_type = e.second->dir ? DT_DIR : DT_REG; d->d.d_reclen = sizeof d->d;
        snprintf(d->d.d_name, sizeof d->d.d_name, "%s", e.first.c_str());
        return &d->d;
    }
    return real_readdir64()(h);
}
int closedir(DIR *h) { if (vdirs.erase(h)) { delete (VDir *) h; return 0; } return real_closedir()(h); }
int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); void *p = va_arg(ap, void *); va_end(ap);
    if (on && fd >= SOCK_BASE) return 0;
    return real_fcntl64()(fd, cmd, p);
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); void *p = va_arg(ap, void *); va_end(ap);
    if (on && fd >= SOCK_BASE) return 0;
    return real_fcntl64()(fd, cmd, p);
}
int posix_fadvise64(int fd, off64_t a, off64_t b, int c) { if (on && fd >= SOCK_BASE) return 0; return real_posix_fadvise64()(fd, a, b, c); }
int dup2(int a, int b) noexcept { if (on && a >= SOCK_BASE) return b; return real_dup2()(a, b); }
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t off) noexcept
{
    if (on && !in_engine && (flags & MAP_SHARED) && (flags & MAP_ANONYMOUS)) {
        void *p = real_mmap64()(a, n, prot, (flags & ~MAP_SHARED) | MAP_PRIVATE, fd, off);
        if (p != MAP_FAILED) shregions.push_back({ p, n });
        return p;
    }
    return real_mmap64()(a, n, prot, flags, fd, off);
}
// ---- accounts and limits: nothing real may change
int setuid(uid_t) noexcept { return 0; }
int setgid(gid_t) noexcept { return 0; }
int initgroups(const char *, gid_t) { return 0; }
int setpriority(__priority_which_t, id_t, int) noexcept { return 0; }
}
