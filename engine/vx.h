// vx: exhaustive explorer for code running inside the real nginx binary.
//
// The library is preloaded into /usr/sbin/nginx.  It virtualises the clock, the
// sockets, epoll, randomness and the file system below /vxfs, and runs a
// scenario as a coroutine that plays every peer.  All nondeterminism goes
// through vx::choose(); the controller enumerates the whole choice tree.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <sys/socket.h>

namespace vx {

// ---------------------------------------------------------------- exploration
// Pick one of n alternatives; every one of them is explored.
int choose(int n, const char *what = "");
// Stop this execution without judging it (the combination is out of scope).
[[noreturn]] void prune();
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Note a line kept in the sample of this execution (and in a violation report).
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Contributes to the hash that tells one outcome from another.
void observe(const std::string &s);
void observe_u64(uint64_t v);
// Extra measured work done inside one execution (in-process enumerations).
void count(uint64_t states, uint64_t transitions, uint64_t cases);
// Known finding reached: reported, not a violation.  `key` must be listed.
bool known(const char *key);
bool thorough();
int tier_pick(int quick, int thorough);
const char *arg(const char *name, const char *dflt);

// In-process enumeration: calls body for every choice vector of its own tree.
struct Enum {
    std::vector<int> pre, cur, ar;
    size_t pos = 0;
    int choose(int n);
    bool next();       // advance to next vector; false when exhausted
    std::string str() const;
};

// Runs body once for every choice vector it can make, in this process (the
// server's state carries over from one case to the next).
void batch(const std::function<void()> &body);

// ---------------------------------------------------------------- time
uint64_t now_ms();
// Let nginx process everything that is pending, at the current instant.
void pump();
// Let `ms` of virtual time pass, firing nginx timers on the way.
void advance(uint64_t ms);
// Time until the next nginx timer (-1: none). Valid after pump().
long next_timer();

// ---------------------------------------------------------------- network
struct Sock {
    int fd = -1;
    int domain = 0, type = 0;
    sockaddr_storage local{}, peer{};
    socklen_t local_len = 0, peer_len = 0;
    bool listening = false;
    std::deque<std::shared_ptr<Sock>> acceptq;
    std::string rx; size_t rx_off = 0; // bytes waiting to be read by nginx (from rx_off on)
    bool rx_fin = false;        // peer closed its side
    bool rst = false;           // connection reset
    std::string tx;             // bytes written by nginx, not yet taken
    uint64_t tx_total = 0, rx_total = 0;
    long win = -1;              // bytes nginx may still write (-1: unlimited)
    bool shut_wr = false;
    bool closed = false;        // nginx closed it
    uint64_t closed_at = 0;
    int cstate = 0;             // outgoing: 1 pending 2 established 3 refused
    int soerr = 0;
    std::deque<std::string> drx;// datagrams to nginx
    std::deque<std::string> dtx;// datagrams from nginx
    std::function<long(Sock &, long)> wr_policy; // returns bytes accepted (<=want); 0 = EAGAIN
    // epoll
    bool reg = false;
    uint32_t mask = 0;
    uint64_t data = 0;
    uint32_t pend = 0;
    int user = 0;
    std::shared_ptr<void> udata;

    // peer side
    void send(const std::string &b);    // data arrives
    void fin();                         // orderly close by the peer
    void reset();                       // RST
    void open_window(long n);           // allow n more bytes (or -1) and wake
    std::string take();                 // what nginx wrote so far
    std::string peer_str() const;
    bool gone() const { return closed; }
};
using Conn = std::shared_ptr<Sock>;

// A client connects to a listening address ("80", "127.0.0.1:80", "unix:/path").
Conn connect_to(const std::string &where, const std::string &from_ip = "10.0.0.1", int from_port = 0);
bool listening(const std::string &where);
std::vector<std::string> listeners();
// Connections nginx initiated that have not been answered yet.
std::vector<Conn> pending_connects();
void accept_connect(Conn c);
void refuse_connect(Conn c, int err = 111);
// Called whenever nginx starts an outgoing connection (from inside connect()).
extern std::function<void(Conn)> on_connect;
// every virtual socket nginx has open now / all UDP sockets
std::vector<Conn> open_socks();
extern std::function<void(Conn, const std::string &)> on_dgram;

// ---------------------------------------------------------------- several workers (scen/workers.h)
extern std::function<void()> after_pump;   // called whenever pump() is done
extern std::function<Conn(const std::string &, const std::string &)> dial; // may take over connect_to()
Conn detached();                           // a socket that belongs to no worker
void share_memory();                       // shared memory of nginx becomes shared between processes
int spawn(const std::function<void()> &);  // runs it in a new process that is a copy of this one
void set_now_ms(uint64_t ms);

// ---------------------------------------------------------------- files
struct FsOp { int kind; std::string path, path2; int64_t off; std::string data; };
enum { FS_CREATE = 1, FS_WRITE, FS_TRUNC, FS_RENAME, FS_UNLINK, FS_MKDIR, FS_RMDIR };
bool fs_exists(const std::string &p);
std::string fs_read(const std::string &p);
void fs_write(const std::string &p, const std::string &d);
void fs_mkdir(const std::string &p);
void fs_unlink(const std::string &p);
std::vector<std::string> fs_list(const std::string &dirprefix);
std::vector<FsOp> &fs_log();
// fault hook: called before every mutating operation; return errno to fail it, 0 to go on;
extern std::function<int(const FsOp &)> fs_fault;
// called before every operation nginx makes on a virtual file
extern std::function<void(const char *op, const std::string &path)> fs_hook;
// operations on descriptors that are not open; the virtual files open now
extern std::vector<std::string> bad_fds;
std::vector<std::string> open_files();
// writes attempted outside /vxfs once armed
extern std::vector<std::string> denied;
extern std::vector<std::string> execs; // programs nginx tried to run
extern std::vector<std::pair<int,int>> kills;

// ---------------------------------------------------------------- nginx log
std::string &errlog();    // what went to the error log, level as configured
void *sym(const char *name); // symbol in nginx or its modules (fails the run if absent)
void *sym_opt(const char *name);

struct Scenario {
    const char *name;
    int (*roots)();            // size of the first choice
    void (*run)(int root);
    const char *rule;          // what is enumerated, for the evidence
};
}
extern "C" const vx::Scenario *vx_scenarios();
#define VX_SCENARIOS(...) \
    extern "C" const vx::Scenario *vx_scenarios() { \
        static const vx::Scenario s[] = { __VA_ARGS__, { nullptr, nullptr, nullptr, nullptr } }; return s; }
#define VX_CHECK(c, ...) do { if (!(c)) vx::fail(__VA_ARGS__); } while (0)
