// P21: the ordered map against a sorted reference, every sequence of operations.
#include "../engine/vx.h"
#include <algorithm>
#include <set>
using std::string;
extern "C" { void tm_init(int); long tm_str(int, const char *, int); void tm_insert(int, long, int); void tm_delete(long); int tm_find(long); int tm_begin(); int tm_rbegin(); int tm_next(int); int tm_prev(int); int tm_empty(); }
static const char *KN[] = { "unsigned", "signed", "string" };
static std::vector<long> keys(int kind, int n)
{
    std::vector<long> k;
    if (kind == 0) { long v[] = { 5, 0, -1, 9, (long) (1ul << 63), 6, 7, 8 }; k.assign(v, v + n); }
    else if (kind == 1) { long v[] = { 5, -1, 0, (long) (1ul << 63), (long) ~(1ul << 63), -7, 3, -2 }; k.assign(v, v + n); }
    else { static const struct { const char *d; int n; } v[] = { { "Aa", 2 }, { "BB", 2 }, { "", 0 }, { "\0", 1 }, { "b", 1 }, { "AaAa", 4 }, { "BBBB", 4 }, { "AaBB", 4 } }; for (int i = 0; i < n; i++) k.push_back(tm_str(i, v[i].d, v[i].n)); }
    return k;
}
struct T {
    int kind; std::vector<long> k; int ref[8]; bool used[64]; uint64_t *cnt;
    T(int kd, int n) : kind(kd), k(keys(kd, n)) { tm_init(kd); for (int &r : ref) r = -1; memset(used, 0, sizeof used); }
    int fresh(int key) { for (int j = key * 3; j < key * 3 + 3; j++) if (!used[j]) return j; vx::fail("no node"); }
    void ins(int key, bool cov) { int n = fresh(key); if (ref[key] >= 0 && !cov) { tm_insert(n, k[key], 0); return; } if (ref[key] >= 0) used[ref[key]] = false; tm_insert(n, k[key], cov); ref[key] = n; used[n] = true; }
    void del(int key) { tm_delete(k[key]); if (ref[key] >= 0) { used[ref[key]] = false; ref[key] = -1; } }
    bool less(int a, int b) { return kind == 0 ? (unsigned long) k[a] < (unsigned long) k[b] : k[a] < k[b]; }
    template <class F> void check(const F &whatf) {
        int n = (int) k.size(), live = 0;
        for (int i = 0; i < n; i++) { int f = tm_find(k[i]); if (f != ref[i]) vx::fail("%s keys, %s: looking up key %d gives node %d, it is in node %d", KN[kind], whatf().c_str(), i, f, ref[i]); live += ref[i] >= 0; }
        if (tm_empty() != (live == 0)) vx::fail("%s keys, %s: emptiness", KN[kind], whatf().c_str());
        int f[10], b[10], nf = 0, nb = 0;
        for (int i = tm_begin(); i >= 0; i = tm_next(i)) { if (nf >= live) vx::fail("%s keys, %s: walking forward does not end", KN[kind], whatf().c_str()); f[nf++] = i; }
        for (int i = tm_rbegin(); i >= 0; i = tm_prev(i)) { if (nb >= live) vx::fail("%s keys, %s: walking backward does not end", KN[kind], whatf().c_str()); b[nb++] = i; }
        if (nf != live || nb != live) vx::fail("%s keys, %s: %d keys, %d forward, %d backward", KN[kind], whatf().c_str(), live, nf, nb);
        unsigned seen = 0;
        for (int i = 0; i < nf; i++) {
            if (f[i] != b[nb - 1 - i]) vx::fail("%s keys, %s: backward is not the reverse of forward", KN[kind], whatf().c_str());
            int key = f[i] / 3; if (ref[key] != f[i] || (seen >> key & 1)) vx::fail("%s keys, %s: stale or repeated node", KN[kind], whatf().c_str()); seen |= 1u << key;
            if (kind < 2 && i && !less(f[i - 1] / 3, key)) vx::fail("%s keys, %s: not in order", KN[kind], whatf().c_str());
        }
    }
};
static int ops_roots() { return 3 * 15; }
static void ops_run(int root)
{
    int kind = root / 15, first = root % 15, depth = vx::tier_pick(6, 7); uint64_t n = 0;
    int op[8]; long total = 1; for (int i = 1; i < depth; i++) total *= 15;
    for (long c = 0; c < total; c++) {
        long x = c; op[0] = first; for (int i = 1; i < depth; i++) { op[i] = (int) (x % 15); x /= 15; }
        T t(kind, 5);
        for (int i = 0; i < depth; i++) { int key = op[i] / 3, o = op[i] % 3; if (o < 2) t.ins(key, o); else t.del(key); }
        auto text = [&] { string s; for (int i = 0; i < depth; i++) s += string(op[i] % 3 == 0 ? "insert " : op[i] % 3 == 1 ? "insert or replace " : "delete ") + std::to_string(op[i] / 3) + ", "; return s; };
        t.check(text); n++;
    }
    vx::count(n, n * depth, n); vx::observe_u64(root);
}
// bigger trees: all orders of insertion, all subsets deleted in two orders
static int perm_roots() { return 3 * 8; }
static void perm_run(int root)
{
    int kind = root / 8, N = vx::tier_pick(7, 8), f = root % 8; if (f >= N) vx::prune();
    std::vector<int> p; for (int i = 0; i < N; i++) p.push_back(i); uint64_t n = 0;
    do {
        if (p[0] != f) continue;
        for (int m = 0; m < 1 << N; m++) for (int rev = 0; rev < 2; rev++) {
            T t(kind, N); string w = "insert"; for (int i : p) { t.ins(i, 0); w += " " + std::to_string(i); }
            if (!m) t.check([&] { return w; });
            w += " delete"; for (int j = 0; j < N; j++) { int i = rev ? N - 1 - j : j; if (m >> i & 1) { t.del(i); w += " " + std::to_string(i); } } t.check([&] { return w; });
            int back = -1; for (int i = 0; i < N; i++) if (m >> i & 1) back = i; if (back >= 0) { t.ins(back, 1); t.check([&] { return w + " insert " + std::to_string(back); }); }
            n++;
        }
    } while (std::next_permutation(p.begin(), p.end()));
    vx::count(n, n * 2 * N, n); vx::observe_u64(root);
}
VX_SCENARIOS({ "ops", ops_roots, ops_run, "3 key kinds (with extreme, negative and hash-colliding keys) x every sequence of 6 (7) inserts, replaces and deletes over 5 keys" },
             { "perm", perm_roots, perm_run, "3 key kinds x every insertion order of 7 (8) keys x every subset deleted in two orders x one key inserted again" })
