// P22: pooled objects (worker timers, chain buffers, tracked pools, owned timers) have one owner at a time.
#include "../engine/vx.h"
#include <algorithm>
#include <set>
using std::string;
typedef unsigned char u8;
extern "C" { void *rb_get(size_t, int); void rb_put(void *); void rb_info(void *, u8 **, u8 **, u8 **, u8 **, int *, void **); void rb_dirty(void *, void *); char *rb_state(int); char *pd_state(int); char *td_state(int); char *et_state();
void *pd_create(size_t); void pd_destroy(void *); void *pd_alloc(void *, size_t); long et_add(unsigned long, void (*)(void *), void *); void et_del(unsigned long);
void td_init(void (*)(int)); unsigned long td_footprint(); void td_own(int, unsigned long); void td_add(int, unsigned long); void td_del(int, unsigned long); int td_set(int); int td_out(int); void td_clear(int); }
static long numbers(const char *t, const char *key) { const char *p = strstr(t, key); if (!p) vx::fail("no '%s' in %s", key, t); return atol(p + strlen(key)); }
static int count_of(const char *t, const char *w) { int n = 0; for (const char *p = t; (p = strstr(p, w)); p++) n++; return n; }
static string H;
// ---- worker timers: a fixed number of them, each fires once, at its time, with its data, unless deleted
struct Tm { bool live, fired; uint64_t due; long id; int act; int other; };
static Tm X[24]; static int nx; static int running; static bool ended;
static void arm(unsigned ms, int act, int other);
static void et_h(void *d)
{
    int i = (int) (long) d; if (ended) vx::fail("%s: a timer fired after its case", H.c_str());
    if (i < 0 || i >= nx || !X[i].live) vx::fail("%s: timer %d fired but it is not pending", H.c_str(), i);
    if (vx::now_ms() < X[i].due) vx::fail("%s: timer %d fired %d ms early", H.c_str(), i, (int) (X[i].due - vx::now_ms()));
    for (int j = 0; j < nx; j++) if (X[j].live && X[j].due < X[i].due) vx::fail("%s: timer %d fired before timer %d which is due earlier", H.c_str(), i, j);
    X[i].live = false; X[i].fired = true; running++;
    switch (X[i].act) { case 1: arm(10, 0, 0); break; case 2: et_del((unsigned long) X[i].id); break; case 3: arm(0, 0, 0); break;
    case 4: { int o = X[i].other; if (o >= 0 && o < nx && X[o].live) { X[o].live = false; et_del((unsigned long) X[o].id); } break; }
    case 5: arm(10, 0, 0); arm(20, 0, 0); break; }
    running--;
}
static void arm(unsigned ms, int act, int other)
{
    int i = nx++, pend = 0; for (int j = 0; j < i; j++) pend += X[j].live;
    X[i] = { true, false, vx::now_ms() + ms, -1, act, other };
    long id = et_add(ms, et_h, (void *) (long) i);
    if (id < 0) { X[i].live = false; if (pend + running < 3) vx::fail("%s: no timer although only %d of 3 are in use", H.c_str(), pend + running); return; }
    if (pend >= 3) vx::fail("%s: more timers than configured", H.c_str());
    if (id >= 3) vx::fail("%s: timer id %ld", H.c_str(), id);
    for (int j = 0; j < i; j++) if (X[j].live && X[j].id == id) vx::fail("%s: timers %d and %d share the id %ld", H.c_str(), j, i, id);
    X[i].id = id;
}
static void et_check() { int pend = 0; for (int j = 0; j < nx; j++) pend += X[j].live; char *s = et_state(); long a = numbers(s, "alloc: "), f = numbers(s, "free: "); if (a != 3 || f != 3 - pend) vx::fail("%s: %d timers pending, the state says %ld free of %ld", H.c_str(), pend, f, a); }
static int et_roots() { return 24; }
static void et_run(int root)
{
    vx::batch([&] {
        nx = 0; H.clear(); ended = false; int depth = vx::tier_pick(5, 6);
        for (int k = 0; k < depth; k++) {
            int op = k ? vx::choose(24) : root;
            if (op < 18) { int ms = op / 6 * 10, act = op % 6; if (act == 4 && !nx) break; int o = act == 4 ? vx::choose(nx) : 0; H += "add " + std::to_string(ms) + " action " + std::to_string(act) + (act == 4 ? " on " + std::to_string(o) : "") + ", "; arm((unsigned) ms, act, o); }
            else if (op < 21) { int d = (op - 18); int i = -1; for (int j = 0, c = 0; j < nx; j++) if (X[j].id >= 0 && c++ == d) i = j; if (i < 0) break;
                bool reused = false; for (int j = 0; j < nx; j++) if (j != i && X[j].live && X[j].id == X[i].id) reused = true; if (!X[i].live && reused) break;
                H += "delete " + std::to_string(i) + ", "; X[i].live = false; et_del((unsigned long) X[i].id); }
            else { int ms = (op - 20) * 10 - (op == 21 ? 10 : 10); H += "wait " + std::to_string(ms) + ", "; if (ms) vx::advance((uint64_t) ms); else vx::pump();
                for (int j = 0; j < nx; j++) if (X[j].live && X[j].due < vx::now_ms()) vx::fail("%s: timer %d did not fire", H.c_str(), j); }
            et_check();
        }
        for (int j = 0; j < nx; j++) if (X[j].live) { X[j].live = false; et_del((unsigned long) X[j].id); }
        et_check(); vx::observe(H); ended = true; vx::advance(50); ended = false;
    });
}
// ---- chain buffers
struct Bf { void *cl; size_t n; int alloc; u8 pat; bool live; };
static int rb_roots() { return 8; }
static void rb_run(int root)
{
    static const size_t SZ[] = { 1, 32, 33, 0 };
    long base_live = numbers(rb_state(0), "nalloc chain: ") - numbers(rb_state(0), "nfree chain: ");
    vx::batch([&] {
        std::vector<Bf> b; H.clear(); int depth = vx::tier_pick(8, 9); u8 pat = 1;
        auto verify = [&](Bf &f, const char *when) {
            u8 *s, *p, *l, *e; int fl; void *nx; rb_info(f.cl, &s, &p, &l, &e, &fl, &nx);
            if (f.alloc) { if ((size_t) (e - s) != f.n) vx::fail("%s: %s: a buffer of %zu bytes has %zu", H.c_str(), when, f.n, (size_t) (e - s)); for (size_t i = 0; i < f.n; i++) if (s[i] != f.pat) vx::fail("%s: %s: the contents of a buffer in use changed", H.c_str(), when); }
        };
        for (int k = 0; k < depth; k++) {
            int nl = 0; for (auto &f : b) nl += f.live;
            int op = k ? vx::choose(4 + (nl > 3 ? 3 : nl) + ((int) b.size() > nl ? 1 : 0)) : root; if (!k && op >= 4) return;
            if (op < 4) {
                int al = op < 3; H += al ? "get " + std::to_string(SZ[op]) + ", " : "get header, ";
                void *c = rb_get(SZ[op], al); for (auto &f : b) if (f.live && f.cl == c) vx::fail("%s: a buffer in use was handed out again", H.c_str());
                u8 *s, *p, *l, *e; int fl; void *nx; rb_info(c, &s, &p, &l, &e, &fl, &nx);
                if (nx) vx::fail("%s: a new buffer is linked to another", H.c_str());
                if (!(fl & 1)) vx::fail("%s: a new buffer is not a memory buffer", H.c_str());
                if (p != s || l != s || (!al && (s || e))) vx::fail("%s: a new buffer is not empty", H.c_str());
                if (al) { if ((size_t) (e - s) != SZ[op]) vx::fail("%s: asked for %zu bytes, got %zu", H.c_str(), SZ[op], (size_t) (e - s)); for (auto &f : b) if (f.live && f.alloc) { u8 *s2, *p2, *l2, *e2; int f2; void *n2; rb_info(f.cl, &s2, &p2, &l2, &e2, &f2, &n2); if (s < e2 && s2 < e) vx::fail("%s: two buffers in use share memory", H.c_str()); } memset(s, pat, SZ[op]); }
                if (!b.empty() && b.back().live && al) rb_dirty(c, b.back().cl); else if (al) rb_dirty(c, nullptr);
                b.push_back({ c, SZ[op], al, pat++, true });
            } else if (op < 4 + (nl > 3 ? 3 : nl)) {
                int i = -1, c = op - 4; for (size_t j = 0; j < b.size(); j++) if (b[j].live && c-- == 0) { i = (int) j; break; }
                verify(b[i], "before it is returned"); H += "put " + std::to_string(i) + ", "; b[i].live = false; rb_put(b[i].cl);
            } else {
                // returned a second time, while nobody else has got it: noticed, and nothing else
                int i = -1; for (size_t j = 0; j < b.size(); j++) if (!b[j].live) { bool re = false; for (auto &f : b) re |= f.live && f.cl == b[j].cl; if (!re) i = (int) j; }
                if (i < 0) break; H += "put " + std::to_string(i) + " again, "; rb_put(b[i].cl);
            }
            for (auto &f : b) if (f.live) verify(f, "later");
            char *s = rb_state(1); nl = 0; for (auto &f : b) nl += f.live;
            long na = numbers(s, "nalloc chain: "), nf = numbers(s, "nfree chain: "); if (na - nf != nl + base_live) vx::fail("%s: %d buffers in use, the state says %ld of %ld are free", H.c_str(), nl, nf, na);
            if (count_of(s, "    me:7\n") != nl) vx::fail("%s: %d buffers in use, the state lists %d", H.c_str(), nl, count_of(s, "    me:7\n"));
        }
        for (auto &f : b) if (f.live) rb_put(f.cl);
        vx::observe(H);
    });
    // what was returned is used again
    char *s = rb_state(0); if (numbers(s, "nalloc chain: ") > 12 || numbers(s, "nalloc buf: ") > 40) vx::fail("returned buffers are not reused: %s", s);
}
// sizes far apart, alike in their low bytes: a buffer is as large as it was asked for, whatever was returned before it
static int rs_roots() { return 1; }
static void rs_run(int)
{
    static const size_t SZ[] = { 1, 2, 127, 128, 129, 255, 256, 257, 384, 4096, 32767, 32768, 32896, 65535, 65536, 65537, 65664, 65792, 131200, 69632 };
    const int N = sizeof SZ / sizeof *SZ; std::vector<void *> held; u8 pat = 0;
    auto get = [&](size_t n) {
        void *c = rb_get(n, 1); u8 *s, *p, *l, *e; int fl; void *nx; rb_info(c, &s, &p, &l, &e, &fl, &nx);
        if ((size_t) (e - s) != n) vx::fail("%s: asked for %zu bytes, got %zu", H.c_str(), n, (size_t) (e - s));
        memset(s, ++pat, n); return c; };
    auto same = [&](void *c, size_t n, u8 want) { u8 *s, *p, *l, *e; int fl; void *nx; rb_info(c, &s, &p, &l, &e, &fl, &nx); (void) n; for (; s < e; s++) if (*s != want) vx::fail("%s: the content of a buffer in use changed", H.c_str()); };
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) for (int f = 0; f < 4; f++) {
        H = "get " + std::to_string(SZ[i]) + (f & 1 ? ", return it" : "") + ", get " + std::to_string(SZ[j]) + (f & 2 ? ", return it" : "") + ", get " + std::to_string(SZ[k]);
        void *a = get(SZ[i]); u8 pa = pat; if (f & 1) rb_put(a);
        void *b = get(SZ[j]); u8 pb = pat; if (f & 2) rb_put(b);
        void *c = get(SZ[k]); u8 pc = pat;
        if (!(f & 1)) { same(a, SZ[i], pa); rb_put(a); } if (!(f & 2)) { same(b, SZ[j], pb); rb_put(b); } same(c, SZ[k], pc); rb_put(c);
        vx::count(1, 3, 1);
    }
}
// ---- tracked pools
static int pd_roots() { return 1; }
static void pd_run(int)
{
    long base = numbers(pd_state(0), "nalloc node: ") - numbers(pd_state(0), "nfree node: ");
    vx::batch([&] {
        std::vector<std::pair<void *, bool>> p; std::vector<std::pair<u8 *, int>> mem; H.clear(); int depth = vx::tier_pick(9, 10);
        for (int k = 0; k < depth; k++) {
            int n = (int) p.size(), op = vx::choose(1 + (n > 4 ? 4 : n)); 
            if (op == 0) { if (n >= 6) break; H += "create, "; void *q = pd_create(256); for (auto &x : p) if (x.second && x.first == q) vx::fail("%s: the pool is in use", H.c_str()); p.push_back({ q, true }); u8 *m = (u8 *) pd_alloc(q, 64); memset(m, n + 1, 64); mem.push_back({ m, n }); }
            else { auto &x = p[op - 1]; H += "destroy " + std::to_string(op - 1) + ", "; bool again = false; for (auto &y : p) again |= &y != &x && y.second && y.first == x.first; if (!x.second && again) break;
                if (x.second) for (auto &m : mem) if (m.second == op - 1) for (int i = 0; i < 64; i++) if (m.first[i] != op) vx::fail("%s: memory of a live pool changed", H.c_str());
                x.second = false; pd_destroy(x.first); }
            int live = 0; for (auto &x : p) live += x.second; char *s = pd_state(1); long na = numbers(s, "nalloc node: "), nf = numbers(s, "nfree node: ");
            if (na - nf != live + base || count_of(s, "    me:9\n") != live) vx::fail("%s: %d pools live, the state says %ld - %ld and lists %d", H.c_str(), live, na, nf, count_of(s, "    me:9\n"));
        }
        for (auto &x : p) if (x.second) pd_destroy(x.first);
        vx::observe(H);
    });
}
// ---- timers with owners
static int fired[4]; static std::vector<int> fires; static void td_h(int i) { fired[i]++; fires.push_back(i); }
static int td_roots() { return 7; }
static void td_run(int root)
{
    td_init(td_h); static unsigned long own[2]; struct A { bool on; unsigned long fp; uint64_t due; } a[2];
    long base = numbers(td_state(0), "nalloc node: ") - numbers(td_state(0), "nfree node: ");
    vx::batch([&] {
        for (int i = 0; i < 2; i++) { own[i] = td_footprint(); td_own(i, own[i]); a[i].on = false; } H.clear(); unsigned long prev[2] = { own[0], own[1] }; int depth = vx::tier_pick(6, 7);
        for (int k = 0; k < depth; k++) {
            int op = k ? vx::choose(11) : root, i = op & 1; fires.clear(); bool stale[2] = { false, false };
            if (op < 2) { H += "arm " + std::to_string(i) + " 1000, "; td_add(i, 1000); if (!a[i].on) a[i] = { true, own[i], vx::now_ms() + 1000 }; else if (a[i].fp == own[i]) a[i].due = vx::now_ms() + 1000; }
            else if (op < 4) { H += "arm " + std::to_string(i) + " 2000, "; td_add(i, 2000); if (!a[i].on) a[i] = { true, own[i], vx::now_ms() + 2000 }; else if (a[i].fp == own[i]) a[i].due = vx::now_ms() + 2000; }
            else if (op < 6) { H += "cancel " + std::to_string(i) + ", "; td_del(i, own[i]); if (a[i].on && a[i].fp == own[i]) a[i].on = false; }
            else if (op < 8) { H += "wait " + std::to_string((i + 1) * 1000) + ", "; uint64_t end = vx::now_ms() + (uint64_t) (i + 1) * 1000; vx::advance((uint64_t) (i + 1) * 1000);
                std::vector<int> want; for (int j = 0; j < 2; j++) if (a[j].on && a[j].due <= end) { if (a[j].fp == own[j]) want.push_back(j); else stale[j] = true; a[j].on = false; }
                auto g = fires; std::sort(g.begin(), g.end()); if (g != want) { string w, f; for (int x : want) w += std::to_string(x) + " "; for (int x : g) f += std::to_string(x) + " "; vx::fail("%s: timers that fired: %s, due: %s", H.c_str(), f.c_str(), w.c_str()); }
                for (int j : want) { if (td_set(j) || !td_out(j)) vx::fail("%s: a timer that fired is still set", H.c_str()); td_clear(j); } fires.clear(); }
            else if (op < 10) { H += "new owner " + std::to_string(i) + ", "; prev[i] = own[i]; own[i] = td_footprint(); td_own(i, own[i]); }
            else { H += "old owner cancels 0, "; td_del(0, prev[0]); if (a[0].on && a[0].fp == prev[0]) a[0].on = false; }
            if (!fires.empty()) vx::fail("%s: a timer fired on its own", H.c_str());
            int live = 0; for (auto &x : a) live += x.on; char *s = td_state(1); long n = numbers(s, "nalloc node: ") - numbers(s, "nfree node: "); if (n - base != live) vx::fail("%s: %d timers armed, the state says %ld", H.c_str(), live, n - base);
        }
        for (int i = 0; i < 2; i++) if (a[i].on) { td_del(i, a[i].fp); a[i].on = false; }
        fires.clear(); vx::advance(3000); if (!fires.empty()) vx::fail("%s: a cancelled timer fired", H.c_str());
        vx::observe(H);
    });
}
VX_SCENARIOS({ "timers", et_roots, et_run, "every sequence of 5 (6) of: add a worker timer (3 delays x 6 things its handler does: nothing, add, delete itself, add at once, delete another, add two), delete one, let time pass; 3 timers configured" },
             { "buffers", rb_roots, rb_run, "every sequence of 8 (9) of: get a chain buffer (3 sizes or header only), return one of those in use, return one twice" },
             { "sizes", rs_roots, rs_run, "every triple of 20 buffer sizes (equal modulo 2^8 and 2^16 among them), each of the first two returned or not before the next is taken" },
             { "pools", pd_roots, pd_run, "every sequence of 8 (9) creations, destructions and repeated destructions of tracked pools" },
             { "owners", td_roots, td_run, "every sequence of 6 (7) of: arm, re-arm, cancel, wait, change of owner, cancel by the old owner, for two timers" })
