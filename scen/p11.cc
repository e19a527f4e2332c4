// P11: several workers act as one server.
#include "http.h"
#include "rtmp.h"
#include "flv.h"
#include "workers.h"
#include <algorithm>
#include <memory>
#include <ucontext.h>
using namespace rt;
// ---- zone: which worker owns a stream. Every interleaving of the workers' accesses to the shared memory.
extern "C" { int zt_create(const char *, const char *); long zt_ins(const char *, int); void zt_del(const char *, int), zt_start(void), zt_stop(void); long zt_alloc(void), zt_hash(const char *, int); }
namespace z {
struct Op { int kind, name; long res; int beg, end, slot; }; // kind: 0 insert, 1 delete, 2 start, 3 stop
struct Proc { ucontext_t uc; std::vector<char> stack; std::vector<Op> ops; bool done; void *want; int slot; };
static std::vector<Proc> P; static ucontext_t up; static int cur = -1, budget, tick; static char *lo, *hi; static std::map<void *, int> held; static string lg; static const char *NM[8];
static bool runnable(int i) { return !P[i].done && (!P[i].want || !held.count(P[i].want)); }
static void to(int n) { int o = cur; cur = n; if (o == -1) swapcontext(&up, &P[n].uc); else swapcontext(&P[o].uc, &P[n].uc); }
static void point() { // the current process is at an access
    if (cur < 0 || !budget) return; int c[4], n = 0; for (int i = 0; i < (int) P.size(); i++) if (i != cur && runnable(i)) c[n++] = i; if (!n) return;
    int k = vx::choose(n + 1); if (k) { budget--; to(c[k - 1]); }
}
static void pass() { int c[4], n = 0; for (int i = 0; i < (int) P.size(); i++) if (runnable(i)) c[n++] = i; if (!n) { for (auto &p : P) if (!p.done) vx::fail("%s: the workers are deadlocked", lg.c_str()); int o = cur; cur = -1; swapcontext(&P[o].uc, &up); return; } int k = n > 1 ? vx::choose(n) : 0; if (c[k] != cur) to(c[k]); }
}
extern "C" {
long zt_slot(void) { return z::cur < 0 ? 77 : z::P[z::cur].slot; }
void zt_shm(void *p, size_t n) { z::lo = (char *) p; z::hi = z::lo + n; }
void zt_touch(void *p) { if ((char *) p >= z::lo && (char *) p < z::hi) z::point(); }
void zt_lock(void *m) { using namespace z; if (cur < 0) { if (held.count(m)) vx::fail("%s: a lock is never released", lg.c_str()); return; } point(); while (held.count(m)) { if (held[m] == cur) vx::fail("%s: a worker waits for itself", lg.c_str()); P[cur].want = m; pass(); } P[cur].want = nullptr; held[m] = cur; }
void zt_unlock(void *m) { using namespace z; if (cur < 0) return; auto i = held.find(m); if (i == held.end() || i->second != cur) vx::fail("%s: a lock is released by a worker that does not hold it", lg.c_str()); held.erase(i); point(); }
long zt_trylock(void *m) { using namespace z; if (cur < 0) return 1; point(); if (held.count(m)) return 0; held[m] = cur; return 1; }
void *zt_cpy(void *a, const void *b, size_t n) { size_t h = n / 2; zt_touch(a); zt_touch((void *) b); memcpy(a, b, h); zt_touch(a); zt_touch((void *) b); memcpy((char *) a + h, (const char *) b + h, n - h); return a; }
int zt_cmp(const void *a, const void *b, size_t n) { zt_touch((void *) a); zt_touch((void *) b); return memcmp(a, b, n); }
size_t zt_len(const void *a) { zt_touch((void *) a); return strlen((const char *) a); }
}
namespace z {
static void body(int i) { for (auto &o : P[i].ops) { o.beg = ++tick; const char *n = NM[o.name]; int l = (int) strlen(n); if (o.kind == 0) o.res = zt_ins(n, l); else if (o.kind == 1) zt_del(n, l); else if (o.kind == 2) zt_start(); else zt_stop(); o.end = ++tick; } P[i].done = true; pass(); }
using St = std::map<int, int>; // name -> slot
static int cap;
static bool step(St &s, const Op &o, int slot) {
    if (o.kind == 0) { auto i = s.find(o.name); if (i != s.end()) return o.res == i->second; if ((int) s.size() >= cap) return o.res == -1; s[o.name] = slot; return o.res == slot; }
    if (o.kind == 1) { auto i = s.find(o.name); if (i != s.end() && i->second == slot) s.erase(i); return true; }
    return false;
}
// start and stop forget the streams of the worker one after another
static bool linear(const St &s, std::vector<Op> &v, unsigned left, const St &fin, int names)
{
    if (!left) return s == fin;
    for (size_t k = 0; k < v.size(); k++) if (left >> k & 1) { const Op &o = v[k]; bool first = true; for (size_t q = 0; q < v.size(); q++) if (left >> q & 1 && v[q].end < o.beg) first = false; if (!first) continue; St t = s; if (step(t, o, o.slot) && linear(t, v, left & ~(1u << k), fin, names)) return true; }
    return false;
}
static const char *KN[] = { "insert", "delete", "start", "stop" };
struct Cfg { int buckets, streams; std::vector<int> plan; std::vector<int> pre; }; // plan: ops per process; pre: name*2+slot already there
static void run(const Cfg &c, const std::vector<std::vector<Op>> &ops, int names)
{
    static string base; static string key; string k = std::to_string(c.buckets) + "/" + std::to_string(c.streams);
    if (key != k) { if (zt_create(("buckets=" + std::to_string(c.buckets)).c_str(), ("streams=" + std::to_string(c.streams)).c_str())) vx::fail("the stream zone is refused"); base.assign(lo, hi); key = k; }
    cap = c.streams;
    vx::batch([&] {
        memcpy(lo, base.data(), base.size()); held.clear(); cur = -1; tick = 0; budget = vx::tier_pick(2, 3); St s0; P.resize(c.plan.size());
        lg = "buckets " + std::to_string(c.buckets) + ", streams " + std::to_string(c.streams);
        budget = 0; for (int x : c.pre) { P[0].slot = x % 2; cur = 0; zt_ins(NM[x / 2], (int) strlen(NM[x / 2])); cur = -1; s0[x / 2] = x % 2; lg += " [" + string(1, (char) ('a' + x / 2)) + " of " + std::to_string(x % 2) + "]"; } held.clear(); budget = vx::tier_pick(2, 3);
        for (size_t i = 0; i < P.size(); i++) { auto &p = P[i]; p.ops = ops[i]; p.done = p.ops.empty(); p.want = nullptr; p.slot = (int) i; p.stack.resize(64 << 10); getcontext(&p.uc); p.uc.uc_stack.ss_sp = p.stack.data(); p.uc.uc_stack.ss_size = p.stack.size(); p.uc.uc_link = nullptr; makecontext(&p.uc, (void (*)()) body, 1, (int) i); lg += i ? " ||" : ":"; for (auto &o : p.ops) { lg += string(" ") + KN[o.kind]; if (o.kind < 2) lg += string(" ") + (char) ('a' + o.name); } }
        int first = vx::choose((int) P.size()); to(first); cur = -1; if (!held.empty()) vx::fail("%s: a lock is never released", lg.c_str());
        string res; for (auto &p : P) for (auto &o : p.ops) if (o.kind == 0) res += " " + std::to_string(o.res);
        // what the zone holds now
        St fin; long n = zt_alloc(); if (n < 0 || n > c.streams) vx::fail("%s: %ld nodes in use", lg.c_str(), n); string after(lo, hi);
        for (int i = 0; i < names; i++) { memcpy(lo, after.data(), after.size()); long r = zt_ins(NM[i], (int) strlen(NM[i])); if (r >= 0 && r != 77) fin[i] = (int) r; } memcpy(lo, after.data(), after.size());
        if ((int) fin.size() != n) vx::fail("%s: results%s: %ld nodes in use for %zu streams", lg.c_str(), res.c_str(), n, fin.size());
        std::vector<Op> v; for (auto &p : P) for (auto o : p.ops) { o.slot = p.slot; if (o.kind < 2) v.push_back(o); else for (int i = 0; i < names; i++) { o.kind = 1; o.name = i; v.push_back(o); } }
        if (!linear(s0, v, (1u << v.size()) - 1, fin, names)) { string f; for (auto &x : fin) f += string(" ") + (char) ('a' + x.first) + " of " + std::to_string(x.second); vx::fail("%s: results%s, then%s: no order of the operations explains this", lg.c_str(), res.c_str(), f.c_str()); }
        for (int i = (int) fin.size(); i <= c.streams; i++) { string m = "probe" + std::to_string(i); long r = zt_ins(m.c_str(), (int) m.size()); if (r != (i < c.streams ? 77 : -1)) vx::fail("%s: results%s: of %d streams only %d can be used", lg.c_str(), res.c_str(), c.streams, i); }
    });
}
static const std::vector<Cfg> CF = { { 1, 2, { 2, 2 }, {} }, { 1, 2, { 2, 2 }, { 0 } }, { 1, 2, { 2, 2 }, { 0, 3 } }, { 2, 1, { 2, 2 }, { 1 } }, { 2, 2, { 2, 2 }, { 0, 2 } }, { 1, 2, { 1, 1, 1 }, { 0 } }, { 1, 3, { 1, 1, 1 }, { 0, 2, 5 } }, { 2, 1, { 1, 1, 1 }, {} } };
// names a, b: same bucket when there is one; different ones when there are two
static const int NOPS = 6; // insert a, b; delete a, b; start; stop
static Op opof(int i) { Op o{}; o.kind = i < 2 ? 0 : i < 4 ? 1 : i - 2; o.name = i < 4 ? i % 2 : 0; return o; }
static int roots() { return (int) CF.size() * 36; }
static void scen(int root)
{
    static string nb; NM[0] = "srv/app/a"; for (int i = 0; i < 99; i++) { nb = "srv/app/b" + std::to_string(i); if (zt_hash(nb.c_str(), (int) nb.size()) % 2 != zt_hash(NM[0], (int) strlen(NM[0])) % 2) break; } NM[1] = nb.c_str(); NM[2] = "srv/app/c";
    const Cfg &c = CF[root / 36]; int f = root % 36; std::vector<std::vector<Op>> ops(c.plan.size());
    if (c.plan[0] == 2) { ops[0] = { opof(f / 6), opof(f % 6) }; for (int g = 0; g < 36; g++) { ops[1] = { opof(g / 6), opof(g % 6) }; run(c, ops, 3); } }
    else { ops[0] = { opof(f / 6) }; ops[1] = { opof(f % 6) }; for (int g = 0; g < 6; g++) { ops[2] = { opof(g) }; run(c, ops, 3); } }
    vx::note("root %d", root);
}
}
// ---- workers: two workers, clients on either
namespace ws {
struct Play { std::unique_ptr<Client> c; std::unique_ptr<Http> h; int w; int from; string name; };
static std::vector<Play> pl; static std::unique_ptr<Client> pub; static int pubw, serial, serial2; static uint32_t ts; static string lg; static std::vector<int> sent; static std::set<int> maybe;
static string at(int wk, const char *p) { return wk ? string("w1:") + p : p; }
static void frame(bool key) { string id = "#" + std::to_string(serial); pub->send(video(ts, key ? avc_key(id) : avc_inter(id)), 6); sent.push_back(serial++); ts += 40; }
static std::vector<int> got(Play &p)
{
    std::vector<std::pair<uint32_t, string>> f; if (p.c) { for (auto &m : p.c->av()) if (m.type == 9) f.push_back({ m.ts, m.data }); } else { p.h->check(); string b = p.h->all(); size_t o = 13; while (o + 11 <= b.size()) { size_t n = rbe(b, o + 1, 3); if (o + 15 + n > b.size()) break; if (b[o] == 9) f.push_back({ 0, b.substr(o + 11, n) }); o += 15 + n; } }
    std::vector<int> v; for (auto &x : f) { size_t q = x.second.find('#'); if (q == string::npos) { if (x.second[1] != 0) vx::fail("%s: %s: a frame nobody sent", lg.c_str(), p.name.c_str()); continue; } v.push_back(atoi(x.second.c_str() + q + 1)); } return v;
}
static void check(bool settled)
{
    for (auto &p : pl) {
        if (p.c ? p.c->c->closed : p.h->c->closed) vx::fail("%s: %s was disconnected", lg.c_str(), p.name.c_str());
        auto v = got(p); string s; for (int x : v) s += " " + std::to_string(x);
        for (size_t i = 0; i + 1 < v.size(); i++) if (v[i + 1] <= v[i]) vx::fail("%s: %s received frames%s", lg.c_str(), p.name.c_str(), s.c_str());
        if (!settled) continue;
        // everything from the first frame on after it joined, perhaps some from before
        std::vector<int> want; for (int x : sent) if (x >= p.from && !maybe.count(x)) want.push_back(x); size_t k = 0; for (int x : v) if (x >= p.from && !maybe.count(x)) { if (k >= want.size() || want[k] != x) break; k++; } if (k < want.size()) vx::fail("%s: %s received frames%s instead of everything since %d of %d", lg.c_str(), p.name.c_str(), s.c_str(), p.from, serial - 1);
    }
}
static void settle() { w::advance(3000); }
static void run(int root)
{
    int n = vx::tier_pick(5, 6); w::setup(); pl.clear(); pub.reset(); serial = 0; ts = 1000; lg.clear(); sent.clear(); maybe.clear(); int np = 0;
    for (int i = 0; i < n; i++) {
        int o = i == 0 ? root % 9 : i == 1 ? root / 9 : vx::choose(9);
        switch (o) {
        case 0: case 1: { // publisher comes
            if (pub) vx::prune(); pubw = o; lg += " publish" + std::to_string(o); pub.reset(new Client); pub->name = "publisher"; pub->open(at(o, "1935")); if (!pub->handshake()) vx::fail("%s: no handshake", lg.c_str()); pub->connect("live"); pub->create_stream(); pub->publish("s"); vx::pump(); if (!pub->saw_code("NetStream.Publish.Start")) vx::fail("%s: the publisher is refused", lg.c_str());
            pub->send(video(ts, avc_seq()), 6); vx::pump(); break; }
        case 2: case 3: { lg += " play" + std::to_string(o - 2); Play p; p.w = o - 2; p.from = serial; p.name = "player " + std::to_string(++np) + " of worker " + std::to_string(p.w); p.c.reset(new Client); p.c->name = p.name; if (!p.c->player("s", "live", at(p.w, "1935"))) vx::fail("%s: %s is refused", lg.c_str(), p.name.c_str()); pl.push_back(std::move(p)); break; }
        case 4: case 5: { lg += " flv" + std::to_string(o - 4); Play p; p.w = o - 4; p.from = serial; p.name = "HTTP player " + std::to_string(++np) + " of worker " + std::to_string(p.w); p.h.reset(new Http); p.h->name = p.name; p.h->open(at(p.w, "80")); p.h->c->send(Http::req("/f/s.flv?app=live")); vx::pump(); pl.push_back(std::move(p)); break; }
        case 6: { lg += " unpublish"; if (!pub) vx::prune(); pub->c->fin(); vx::pump(); if (!pub->c->closed) vx::fail("%s: the publisher is not closed", lg.c_str()); pub.reset(); break; }
        case 7: { lg += " leave"; if (pl.empty()) vx::prune(); auto &c = pl[0].c ? pl[0].c->c : pl[0].h->c; c->fin(); vx::pump(); if (!c->closed) vx::fail("%s: the player is not closed", lg.c_str()); pl.erase(pl.begin()); break; }
        case 8: { lg += " crash"; w::die(); if (pub && pubw == 1) pub.reset(); for (size_t k = 0; k < pl.size();) if (pl[k].w) pl.erase(pl.begin() + (long) k); else k++; w::start(); break; }
        }
        if (pub) { if (o < 2 || o == 6 || o == 8) maybe.insert(serial); frame(true); vx::pump(); check(false); }
        settle(); if (pub && pub->c->closed) vx::fail("%s: the publisher was disconnected", lg.c_str());
        for (auto &p : pl) if (p.from == serial - 1) p.from = serial;
        if (pub) { frame(true); frame(false); vx::pump(); w::advance(500); check(true); frame(false); vx::pump(); check(true); }
        check(false);
    }
    if (pub) { pub->c->fin(); vx::pump(); pub.reset(); } for (auto &p : pl) (p.c ? p.c->c : p.h->c)->fin(); pl.clear(); w::advance(3000);
    if (!w::links.empty()) { int k = 0; for (auto &l : w::links) k += !l.c->closed; if (k) vx::fail("%s: everybody has left, %d connections between the workers are open", lg.c_str(), k); }
    vx::note("%s", lg.c_str());
}
static int roots() { return 81; }
}
VX_SCENARIOS(
    { "zone", z::roots, z::scen, "every interleaving with at most 2 (3) preemptions, at the granularity of single accesses to shared memory, of every two operations of each of two workers and every operation of each of three workers in 8 zones (full, empty, one or two buckets)" },
    { "workers", ws::roots, ws::run, "two workers that share memory: every history of 4 (5) of {publisher comes to either worker, RTMP or HTTP-FLV player joins either, publisher leaves, player leaves, a worker is killed and started again}, frames between" }
)
