// P09: AMF0 values are read into their variables and written back exactly, wherever buffers end.
#include "rtmp.h"
using namespace rt;
struct S { int type; const char *name; void *data; size_t len; S *sub; };
extern "C" { int amf_read(const unsigned char *, const int *, int, S *, int, int *); int amf_write(S *, int, int, int, unsigned char *, int *); }
enum { T_NUM = 0, T_BOOL = 1, T_STR = 2, T_OBJ = 3, T_NULL = 5, T_UNDEF = 6, T_ECMA = 8, T_ARR = 10, T_OPT = 0x1000, T_VAR = 0x2103 };
// the variables a command is read into
static const double D0 = -12345.5; struct Vars { double n1, n2, on, xn, an, vn; unsigned char b1, ob; char s1[5], os[4], xs[3], as[3], vs[4]; };
static Vars v, want;
static void reset(Vars &x) { x.n1 = x.n2 = x.on = x.xn = x.an = x.vn = D0; x.b1 = x.ob = 0x77; memset(x.s1, 'Z', 5); memset(x.os, 'Z', 4); memset(x.xs, 'Z', 3); memset(x.as, 'Z', 3); memset(x.vs, 'Z', 4); }
static S sx[] = { { T_NUM, "x", &v.xn, 0, nullptr }, { T_STR, "y", v.xs, sizeof v.xs, nullptr } };
static S sa[] = { { T_NUM, nullptr, &v.an, 0, nullptr }, { T_STR, nullptr, v.as, sizeof v.as, nullptr } };
static S sv[] = { { T_NUM, nullptr, &v.vn, 0, nullptr }, { T_STR, nullptr, v.vs, sizeof v.vs, nullptr } };
static S so[] = { { T_NUM, "a", &v.on, 0, nullptr }, { T_STR, "bb", v.os, sizeof v.os, nullptr }, { T_BOOL, "ab", &v.ob, 0, nullptr }, { T_OBJ, "o", nullptr, 2, sx }, { T_ARR, "ar", nullptr, 2, sa }, { T_VAR, "va", nullptr, 2, sv } };
static S s0[] = { { T_STR, nullptr, v.s1, sizeof v.s1, nullptr }, { T_NUM, nullptr, &v.n1, 0, nullptr }, { T_OBJ, nullptr, nullptr, 6, so }, { T_BOOL | T_OPT, nullptr, &v.b1, 0, nullptr }, { T_NUM | T_OPT, nullptr, &v.n2, 0, nullptr } };
static S s1[] = { { T_STR, nullptr, v.s1, sizeof v.s1, nullptr }, { T_OBJ, nullptr, nullptr, 6, so }, { T_NUM | T_OPT, nullptr, &v.n2, 0, nullptr } };
static void *w(void *p) { return (char *) &want + ((char *) p - (char *) &v); }
static bool compat(int a, int b) { a &= 0xff; return a == b || (a == T_OBJ && b == T_ECMA) || (a == T_ECMA && b == T_OBJ); }
static int tag(const Val &x) { switch (x.t) { case Val::NUM: return T_NUM; case Val::BOOL: return T_BOOL; case Val::STR: return T_STR; case Val::OBJ: return T_OBJ; case Val::NUL: return T_NULL; case Val::UNDEF: return T_UNDEF; case Val::ECMA: return T_ECMA; case Val::ARR: return T_ARR; default: return 99; } }
static void assign(const S *s, const Val &x)
{
    if (s->type == T_VAR) { for (size_t i = 0; i < s->len; i++) if (s->sub[i].type == tag(x)) assign(&s->sub[i], x); return; }
    if (!compat(s->type, tag(x))) return;
    switch (tag(x)) {
    case T_NUM: *(double *) w(s->data) = x.num; break;
    case T_BOOL: *(unsigned char *) w(s->data) = x.b; break;
    case T_STR: { char *d = (char *) w(s->data); size_t n = x.s.size() < s->len ? x.s.size() : s->len - 1; memcpy(d, x.s.data(), n); d[n] = 0; break; }
    case T_OBJ: case T_ECMA: for (auto &f : x.f) for (size_t i = 0; i < s->len; i++) if (f.first == s->sub[i].name) assign(&s->sub[i], f.second); break;
    case T_ARR: for (size_t i = 0; i < x.f.size() && i < s->len; i++) assign(&s->sub[i], x.f[i].second); break;
    }
}
// compares variable by variable; `partial`: a variable may also be untouched
static const char *diff(bool partial)
{
    static const Vars fresh = [] { Vars x; reset(x); return x; }();
#define N_(f) if (v.f != want.f && !(partial && v.f == fresh.f)) return #f
#define S_(f) if ((memcmp(want.f, fresh.f, sizeof v.f) ? strcmp(v.f, want.f) : memcmp(v.f, fresh.f, sizeof v.f)) && !(partial && !memcmp(v.f, fresh.f, sizeof v.f))) return #f
    N_(n1); N_(n2); N_(on); N_(xn); N_(an); N_(vn); N_(b1); N_(ob); S_(s1); S_(os); S_(xs); S_(as); S_(vs); return nullptr;
}
static uint64_t cases;
static void try_read(const std::vector<Val> &doc, int schema, bool cuts = true)
{
    string b; std::vector<size_t> ends; for (auto &x : doc) { b += enc(x); ends.push_back(b.size()); }
    S *s = schema ? s1 : s0; int n = schema ? 3 : 5, used = 0; reset(want); bool ok = true;
    for (int i = 0; i < n; i++) { if (i >= (int) doc.size()) { if (!(s[i].type & T_OPT)) ok = false; break; } assign(&s[i], doc[i]); used = i + 1; }
    int L = (int) b.size(); size_t left = (size_t) L - (used ? ends[used - 1] : 0);
    auto one = [&](int c1, int c2) {
        int cut[4], nc = 0; if (c1 >= 0) cut[nc++] = c1; if (c2 >= 0) cut[nc++] = c2; cut[nc++] = L; int rest;
        reset(v); int rc = amf_read((const unsigned char *) b.data(), cut, nc, s, n, &rest); cases++;
        if ((rc == 0) != ok) vx::fail("%s in buffers ending at %d %d: reading %s", hex(b).c_str(), c1, c2, ok ? "fails" : "succeeds");
        if (!ok) return;
        if (auto *d = diff(false)) vx::fail("%s in buffers ending at %d %d: variable %s is wrong", hex(b).c_str(), c1, c2, d);
        if (rest != (int) left) vx::fail("%s in buffers ending at %d %d: %d bytes left, should be %zu", hex(b).c_str(), c1, c2, rest, left);
    };
    one(-1, -1);
    bool small = L <= 40; int step = small ? 1 : L / 40 + 1;
    for (int i = 0; i <= L; i += step) { one(i, -1); if (vx::thorough() ? L <= 60 : L <= 24) for (int j = i; j <= L; j++) one(i, j); else one(i, i + 1 > L ? L : i + 1); }
    // cut short: an error, or nothing but values that were there
    if (cuts) for (int k = 0; k < L; k += small ? 1 : step) for (int c = 0; c < 2; c++) {
        int cut[2] = { k / 2, k }, rest; reset(v); int rc = c ? amf_read((const unsigned char *) b.data(), cut, 2, s, n, &rest) : amf_read((const unsigned char *) b.data(), cut + 1, 1, s, n, &rest); cases++;
        if (rc == 0 && ok) { if (auto *d = diff(true)) vx::fail("%s cut to %d bytes: variable %s is neither untouched nor right", hex(b).c_str(), k, d); }
        size_t mand = schema ? 2 : 3; (void) mand;
        if (rc == 0 && k < (int) ends[0]) vx::fail("%s cut to %d bytes: reading succeeds without the first value", hex(b).c_str(), k);
    }
}
static Val scalar(int i)
{
    switch (i) { case 0: return N(1.5); case 1: return B(true); case 2: return Str("abc"); case 3: return Null(); case 4: return Str(""); case 5: return Str("abcde"); case 6: { Val x; x.t = Val::UNDEF; return x; } case 7: return Str("abcd"); case 8: return Str("ab"); case 9: return B(false); default: return N(-0.0); }
}
static Val Arr(std::vector<Val> f) { Val x; x.t = Val::ARR; for (auto &y : f) x.f.push_back({ "", y }); return x; }
static Val value(int i)
{
    if (i < 11) return scalar(i);
    switch (i) {
    case 11: return Obj({}); case 12: return Ecma({}); case 13: return Arr({});
    case 14: return Obj({ { "x", N(7) }, { "y", Str("long") } }); case 15: return Ecma({ { "y", Str("z") }, { "zz", N(3) }, { "x", N(8) } });
    case 16: return Arr({ N(9), Str("q") }); case 17: return Arr({ Str("w"), N(2), Null(), B(true) }); case 18: return Arr({ Obj({ { "a", N(1) } }), Arr({ N(1) }) });
    case 19: return Obj({ { "a", Obj({ { "a", N(5) } }) }, { "x", Arr({}) } }); case 20: return Str(string(300, 'l')); default: return Obj({ { string(300, 'k'), N(1) }, { "x", N(6) } });
    }
}
static const char *KEY[] = { "a", "bb", "ab", "o", "ar", "va", "c", "abc", "b" };
static int obj_roots() { return 9 * 2; }
static void obj_run(int root)
{
    int k1 = root % 9, ecma = root / 9;
    vx::batch([&] {
        std::vector<std::pair<string, Val>> f; f.push_back({ KEY[k1], value(vx::choose(22)) });
        int m = vx::choose(2); if (m) f.push_back({ KEY[vx::choose(9)], value(vx::choose(vx::tier_pick(19, 22))) });
        Val o = ecma ? Ecma(f) : Obj(f);
        try_read({ Str("cmd"), o, N(3) }, 1, !m || f[0].first != f[1].first);
    });
    vx::count(cases, cases, cases); cases = 0; vx::observe_u64(root);
}
static int top_roots() { return 22; }
static void top_run(int root)
{
    vx::batch([&] {
        std::vector<Val> d; int n = vx::choose(6); if (n == 0) { if (root) return; try_read({}, 0); return; }
        d.push_back(value(root)); Val small[] = { N(4), Str("x"), B(true), Null(), Obj({ { "a", N(1) }, { "bb", Str("v") } }), Ecma({ { "ab", B(true) } }), Arr({ N(1) }) };
        for (int i = 1; i < n; i++) d.push_back(small[vx::choose(i < 3 ? 7 : 5)]);
        if (d.empty()) return; try_read(d, 0);
    });
    vx::count(cases, cases, cases); cases = 0; vx::observe_u64(root);
}
// ---- writing
static const int BS[] = { 1, 2, 3, 4, 7, 13, 64, 1000 };
static double wn[3] = { 1.5, -2e300, 0 }; static unsigned char wb[2] = { 0, 1 }; static char ws1[] = "abc", ws0[] = ""; static string wl(70000, 'm');
static S wleaf(int i, Val &x)
{
    switch (i) {
    case 0: case 1: case 2: x = N(wn[i]); return { T_NUM, nullptr, &wn[i], 0, nullptr };
    case 3: case 4: x = B(wb[i - 3]); return { T_BOOL, nullptr, &wb[i - 3], 0, nullptr };
    case 5: x = Str("abc"); return { T_STR, nullptr, ws1, 0, nullptr };
    case 6: x = Str("ab"); return { T_STR, nullptr, ws1, 2, nullptr };
    case 7: x = Str(""); return { T_STR, nullptr, ws0, 0, nullptr };
    case 8: x = Str(""); return { T_STR, nullptr, nullptr, 0, nullptr };
    case 9: x = Null(); return { T_NULL, nullptr, nullptr, 0, nullptr };
    case 10: x = Str(string(300, 'm')); return { T_STR, nullptr, (void *) wl.data(), 300, nullptr };
    default: x = Str(string(65535, 'm')); return { T_STR, nullptr, (void *) wl.data(), 65535, nullptr };
    }
}
static int wr_roots() { return 8 * 2; }
static void wr_run(int root)
{
    int bs = BS[root / 2], pre = root % 2; static unsigned char out[400000];
    vx::batch([&] {
        S leaf[3], inner[3], top[3]; Val lv[3], iv[3]; int n = vx::choose(3) + 1; const char *nm[] = { "k", "key2", "" };
        for (int i = 0; i < n; i++) { leaf[i] = wleaf(vx::choose(i == 2 ? 4 : i == 1 ? 10 : 12), lv[i]); leaf[i].name = nm[i == 2 ? 0 : i]; }
        int wrap = vx::choose(7); std::vector<Val> expect; S *s = leaf; int cnt = n;
        auto fields = [&] { std::vector<std::pair<string, Val>> f; for (int i = 0; i < n; i++) f.push_back({ leaf[i].name, lv[i] }); return f; };
        int kind[] = { 0, T_OBJ, T_ECMA, T_ARR, T_OBJ, T_ARR, T_ECMA };
        if (!wrap) expect.assign(lv, lv + n);
        else {
            auto f = fields(); Val x; if (kind[wrap] == T_ARR) { x = Arr({}); for (auto &y : f) x.f.push_back({ "", y.second }); } else x = kind[wrap] == T_OBJ ? Obj(f) : Ecma(f);
            inner[0] = { kind[wrap], "in", nullptr, (size_t) n, leaf };
            if (wrap < 4) { top[0] = inner[0]; cnt = 1; s = top; expect = { x }; }
            else { inner[1] = wleaf(0, iv[0]); inner[1].name = "n"; top[0] = wleaf(5, iv[1]); top[1] = { wrap == 4 ? T_OBJ : wrap == 5 ? T_ECMA : T_ARR, nullptr, nullptr, 2, inner }; cnt = 2; s = top;
                Val y = wrap == 6 ? Arr({ x, iv[0] }) : wrap == 4 ? Obj({ { "in", x }, { "n", iv[0] } }) : Ecma({ { "in", x }, { "n", iv[0] } }); expect = { iv[1], y }; }
        }
        int m = 0, rc = amf_write(s, cnt, bs, pre, out, &m); string b((char *) out, (size_t) m), e; for (auto &x : expect) e += enc(x); cases++;
        // the count of an ECMA array is only a hint
        std::vector<Val> got; if (rc) vx::fail("writing into buffers of %d bytes fails, expected %s", bs, hex(e).c_str());
        if (!dec_all(b, got)) vx::fail("buffers of %d: written %s cannot be decoded, expected %s", bs, hex(b).c_str(), hex(e).c_str());
        if (!(got == expect) || b.size() != e.size()) vx::fail("buffers of %d: written %s, expected %s", bs, hex(b).c_str(), hex(e).c_str());
    });
    vx::count(cases, cases, cases); cases = 0; vx::observe_u64(root);
}
VX_SCENARIOS({ "objects", obj_roots, obj_run, "a command with an object or ECMA array of 1-2 fields (9 names x 22 values, nested ones included), in one buffer, at every pair of buffer ends, cut short at every byte" },
             { "values", top_roots, top_run, "every sequence of up to 5 values of 22 and 7 kinds read as a command with optional arguments, at every buffer end, cut short at every byte" },
             { "write", wr_roots, wr_run, "every list of 1-3 of 12 values, plain or wrapped in 6 nestings, written into buffers of 8 sizes" })
