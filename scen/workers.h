// A second worker: a copy of this process that shares the shared memory with it. Only one of the two runs at a time.
// "w1:PORT" connects to the second worker; connections between the workers over unix sockets are carried by the scenario.
#pragma once
#include "../engine/vx.h"
#include <algorithm>
#include <string>
#include <vector>
#include <sys/syscall.h>
#include <unistd.h>
#include <cerrno>
#include <csignal>
extern "C" void w_init(void *cycle, void *module);
namespace rt {
namespace w {
using std::string;
static string sockbase = "unix:/tmp/rtmp.";
static void put(string &s, char op, uint32_t id, const string &d = "") { uint32_t n = (uint32_t) d.size(); s += op; s.append((char *) &id, 4); s.append((char *) &n, 4); s += d; }
struct Item { char op; uint32_t id; string d; };
static bool wr(int fd, const string &s) { size_t i = 0; while (i < s.size()) { long k = syscall(SYS_write, fd, s.data() + i, s.size() - i); if (k <= 0) return false; i += (size_t) k; } return true; }
static bool rd(int fd, void *p, size_t n) { char *b = (char *) p; while (n) { long k = syscall(SYS_read, fd, b, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; b += k; n -= (size_t) k; } return true; }
static bool sendmsg_(int fd, const string &s) { uint32_t n = (uint32_t) s.size(); return wr(fd, string((char *) &n, 4) + s); }
static bool recvmsg_(int fd, std::vector<Item> &v) { uint32_t n; v.clear(); if (!rd(fd, &n, 4)) return false; string s(n, 0); if (n && !rd(fd, &s[0], n)) return false; size_t p = 0; while (p < s.size()) { Item i; i.op = s[p]; memcpy(&i.id, &s[p + 1], 4); uint32_t l; memcpy(&l, &s[p + 5], 4); i.d = s.substr(p + 9, l); p += 9 + l; v.push_back(i); } return true; }
// modules of which init_process does something only in a worker process
static void become(int slot)
{
    *(int64_t *) vx::sym("ngx_process") = 3; *(int64_t *) vx::sym("ngx_process_slot") = slot; *(int64_t *) vx::sym("ngx_worker") = slot;
    void *cycle = *(void **) vx::sym("ngx_cycle");
    for (const char *m : { "ngx_process_slot_module", "ngx_stream_zone_module", "ngx_event_multiport_module" }) w_init(cycle, vx::sym(m));
}
// ---- the other side
static void serve(int in, int out, int slot)
{
    std::map<uint32_t, vx::Conn> k; uint32_t next = 1; string o;
    vx::after_pump = nullptr; vx::dial = nullptr;
    vx::on_connect = [&](vx::Conn c) { string p = c->peer_str(); string to = p.compare(0, sockbase.size(), sockbase) == 0 ? p.substr(sockbase.size()) : ""; if (to == std::to_string(1 - slot)) { vx::accept_connect(c); k[next] = c; put(o, 'O', next, p); next += 2; } else vx::refuse_connect(c); };
    std::vector<Item> v; bool first = true;
    while (recvmsg_(in, v)) {
        o.clear(); long adv = -1;
        for (auto &i : v) switch (i.op) {
        case 'T': vx::set_now_ms(strtoull(i.d.c_str(), nullptr, 10)); if (first) { first = false; vx::pump(); become(slot); vx::pump(); } break;
        case 'C': { size_t q = i.d.find('|'); k[i.id] = vx::connect_to(i.d.substr(0, q), i.d.substr(q + 1)); break; }
        case 'S': if (k.count(i.id)) k[i.id]->send(i.d); break;
        case 'F': if (k.count(i.id)) k[i.id]->fin(); break;
        case 'R': if (k.count(i.id)) k[i.id]->reset(); break;
        case 'A': adv = atol(i.d.c_str()); break;
        }
        if (adv >= 0) vx::advance((uint64_t) adv); else vx::pump();
        for (auto i = k.begin(); i != k.end();) { string t = i->second->take(); if (!t.empty()) put(o, 'D', i->first, t); if (i->second->closed) { put(o, 'X', i->first); i = k.erase(i); } else ++i; }
        put(o, 'N', 0, std::to_string(vx::next_timer())); put(o, 'P', 0, std::to_string(getpid())); sendmsg_(out, o);
    }
    _exit(0);
}
// ---- this side
struct Link { vx::Conn c; uint32_t id; bool client, told; };
static std::vector<Link> links; static int zctl = -1, pip[8][4], used, win, wout; static bool up; static uint32_t nid = 2; static long ntimer = -1; static int wpid; static string pending;
static void rpc(string s)
{
    std::vector<Item> v; if (!sendmsg_(wout, s) || !recvmsg_(win, v)) _exit(9); // it has died and said why
    for (auto &i : v) {
        if (i.op == 'N') { ntimer = atol(i.d.c_str()); continue; }
        if (i.op == 'P') { wpid = atoi(i.d.c_str()); continue; }
        if (i.op == 'O') { links.push_back({ vx::connect_to(i.d), i.id, false, false }); continue; }
        for (auto &l : links) if (l.id == i.id) { if (i.op == 'D') { if (l.client) l.c->tx += i.d; else l.c->send(i.d); } else { l.told = true; if (l.client) l.c->closed = true; else l.c->fin(); } break; }
    }
}
static string gather()
{
    string s; s.swap(pending);
    for (auto &l : links) if (!l.told) {
        if (l.client) { if (l.c->rx.size() > l.c->rx_off) { put(s, 'S', l.id, l.c->rx.substr(l.c->rx_off)); l.c->rx.clear(); l.c->rx_off = 0; } if (l.c->rst) { put(s, 'R', l.id); l.told = true; } else if (l.c->rx_fin) { put(s, 'F', l.id); l.told = true; } }
        else { string t = l.c->take(); if (!t.empty()) put(s, 'S', l.id, t); if (l.c->closed) { put(s, 'F', l.id); l.told = true; } }
    }
    for (size_t i = 0; i < links.size();) if (links[i].c->closed && links[i].told) links.erase(links.begin() + (long) i); else i++;
    return s;
}
static void sync() { if (!up) return; for (int n = 0;; n++) { string s = gather(); if (s.empty() && n) return; rpc(s); vx::pump(); if (n > 5000) vx::fail("the workers never become idle"); } }
static void start() { if (used >= 8) vx::fail("scenario: too many workers"); char b = (char) used; syscall(SYS_write, zctl, &b, 1); win = pip[used][0]; wout = pip[used][3]; used++; up = true; string s; put(s, 'T', 0, std::to_string(vx::now_ms())); rpc(s); vx::pump(); }
// the second worker is killed
static void die()
{
    vx::pump(); syscall(SYS_kill, wpid, SIGKILL); char b[4096]; while (rd(win, b, 1)) {} syscall(SYS_close, win); syscall(SYS_close, wout); up = false;
    for (auto &l : links) { if (l.client) l.c->closed = true; else l.c->fin(); } links.clear(); pending.clear(); vx::pump();
}
static void setup()
{
    vx::share_memory(); int ctl[2]; auto mk = [](int *p) { if (syscall(SYS_pipe2, p, 0)) vx::fail("scenario: pipe"); }; mk(ctl); for (auto &p : pip) { mk(p); mk(p + 2); } // worker writes 1, reads 2
    vx::spawn([&] {
        syscall(SYS_close, ctl[1]); for (auto &p : pip) { syscall(SYS_close, p[0]); syscall(SYS_close, p[3]); } char b;
        while (rd(ctl[0], &b, 1)) { int *p = pip[(int) b]; int o = p[1], i = p[2]; vx::spawn([&] { syscall(SYS_close, ctl[0]); serve(i, o, 1); }); syscall(SYS_close, o); syscall(SYS_close, i); }
        _exit(0);
    });
    syscall(SYS_close, ctl[0]); zctl = ctl[1]; for (auto &p : pip) { syscall(SYS_close, p[1]); syscall(SYS_close, p[2]); }
    become(0);
    vx::on_connect = [](vx::Conn c) { string p = c->peer_str(); if (p == sockbase + "1" && up) { vx::accept_connect(c); links.push_back({ c, nid, false, false }); put(pending, 'C', nid, sockbase + "1|"); nid += 2; } else vx::refuse_connect(c); };
    vx::dial = [](const string &where, const string &ip) -> vx::Conn { if (where.compare(0, 3, "w1:")) return nullptr; if (!up) vx::fail("scenario: no worker"); vx::Conn c = vx::detached(); links.push_back({ c, nid, true, false }); put(pending, 'C', nid, where.substr(3) + "|" + ip); nid += 2; return c; };
    vx::after_pump = sync; start();
}
// time passes for both
static void advance(uint64_t ms)
{
    vx::pump(); while (ms) { long a = vx::next_timer(), b = up ? ntimer : -1; uint64_t step = ms; if (a >= 0) step = std::min<uint64_t>(step, (uint64_t) std::max(a, 1L)); if (b >= 0) step = std::min<uint64_t>(step, (uint64_t) std::max(b, 1L)); ms -= step; vx::advance(step); if (up) { string s; put(s, 'A', 0, std::to_string(step)); rpc(s); } vx::pump(); }
}
}
}
