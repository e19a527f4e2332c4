// P01: RTMP input reassembly.
#include "rtmp.h"
using namespace rt;
extern "C" {
extern void (*rec_cb)(int fd, int type, unsigned ts, unsigned msid, unsigned csid, const unsigned char *d, size_t n);
void rec_install(void);
}
static std::vector<Msg> got;
static int want_fd = -1;
static void cb(int fd, int type, unsigned ts, unsigned msid, unsigned csid, const unsigned char *d, size_t n)
{
    if (fd != want_fd) return;
    Msg m; m.type = type; m.ts = ts; m.sid = msid; m.csid = (int) csid; m.data.assign((const char *) d, n); got.push_back(m);
}
static string pay(int type, size_t n, int salt)
{
    string s; for (size_t i = 0; i < n; i++) s += (char) (1 + ((i * 37 + salt * 101 + (i >> 3)) % 250));
    if (n) s[0] = type == 9 ? 0x27 : type == 8 ? (char) 0xaf : s[0];
    if (n > 1 && (type == 8 || type == 9)) s[1] = 1;
    if (type == 18) { string h = enc(Str("onXyz")); s = n < h.size() + 1 ? h : h + string("\2", 1) + be(n > h.size() + 3 ? n - h.size() - 3 : 0, 2) + string(n > h.size() + 3 ? n - h.size() - 3 : 0, 'm'); }
    return s;
}
// expansion of what must be dispatched
static void expect(std::vector<Msg> &ex, const Msg &m)
{
    ex.push_back(m);
    if (m.type != 22) return;
    size_t p = 0; bool first = true; uint32_t base = 0;
    while (p + 11 <= m.data.size()) {
        Msg s; s.type = (unsigned char) m.data[p]; size_t n = rbe(m.data, p + 1, 3);
        uint32_t t = (uint32_t) rbe(m.data, p + 4, 3) | (uint32_t) (unsigned char) m.data[p + 7] << 24;
        s.sid = (uint32_t) rbe(m.data, p + 8, 3);
        if (first) { base = t; first = false; }
        s.ts = m.ts + t - base; s.csid = m.csid; s.data = m.data.substr(p + 11, n); ex.push_back(s); p += 11 + n + 4;
    }
}
static string tag(int type, uint32_t ts, const string &d, uint32_t sid = 1) { return string(1, (char) type) + be(d.size(), 3) + be(ts & 0xffffff, 3) + be(ts >> 24, 1) + be(sid, 3) + d + be(d.size() + 11, 4); }
static void verify(const std::vector<Msg> &ex, const char *what)
{
    for (size_t i = 0; i < std::max(ex.size(), got.size()); i++) {
        if (i >= got.size()) vx::fail("%s: message %zu was lost: %s (dispatched %zu of %zu)", what, i, mstr(ex[i]).c_str(), got.size(), ex.size());
        if (i >= ex.size()) vx::fail("%s: extra message %zu dispatched: %s", what, i, mstr(got[i]).c_str());
        if (!(got[i] == ex[i])) vx::fail("%s: message %zu differs: sent %s, dispatched %s%s", what, i, mstr(ex[i]).c_str(), mstr(got[i]).c_str(), got[i].data == ex[i].data ? "" : " (payload)");
    }
    for (auto &m : got) vx::observe(mstr(m));
}
static Client *start(bool pub = true)
{
    static Client *prev; if (prev) { if (!prev->c->closed) { prev->c->fin(); vx::pump(); } delete prev; }
    auto *c = new Client; c->name = "pub"; prev = c;
    if (!c->up()) vx::fail("a plain RTMP client cannot connect");
    if (pub) { c->publish("s"); vx::pump(); if (!c->saw_code("NetStream.Publish.Start")) vx::fail("a plain RTMP client cannot publish"); }
    rec_install(); rec_cb = cb; want_fd = c->c->fd; got.clear();
    return c;
}
// deliver bytes cut at the given positions, letting the server run in between
static void deliver(Client *c, const string &b, std::vector<size_t> cuts)
{
    size_t p = 0; cuts.push_back(b.size());
    for (size_t k : cuts) { if (k <= p) continue; c->c->send(b.substr(p, k - p)); vx::pump(); p = k; if (c->c->closed) vx::fail("the server closed the connection on legal input"); }
}

// ---------------------------------------------------------------- scripts
struct Script { const char *name; std::function<void(ChunkWriter &, string &, std::vector<Msg> &)> make; };
static Msg mk(int type, uint32_t ts, size_t n, int salt) { Msg m; m.type = type; m.ts = ts; m.sid = 1; m.data = pay(type, n, salt); return m; }
static void put(ChunkWriter &w, string &b, std::vector<Msg> &ex, const Msg &m, int cs, int fmt) { b += w.msg(m, cs, fmt); Msg x = m; x.csid = cs; expect(ex, x); }
static void setchunk(ChunkWriter &w, string &b, std::vector<Msg> &ex, size_t n) { Msg m; m.type = 1; m.sid = 0; m.data = be(n, 4); put(w, b, ex, m, 2, 0); w.chunk = n; }
static void inter(string &b, std::vector<string> x, std::vector<string> y, int order)
{   // order bits say which stream gives its next chunk
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) { bool first = order & 1; order >>= 1; if ((first && i < x.size()) || j >= y.size()) b += x[i++]; else b += y[j++]; }
}
static std::vector<Script> scripts()
{
    std::vector<Script> v;
    v.push_back({ "fmt0123", [](ChunkWriter &w, string &b, std::vector<Msg> &ex) {
        put(w, b, ex, mk(9, 0, 9, 1), 4, 0); put(w, b, ex, mk(9, 40, 12, 2), 4, 1); put(w, b, ex, mk(9, 90, 12, 3), 4, 2); put(w, b, ex, mk(9, 140, 12, 4), 4, 3); put(w, b, ex, mk(8, 150, 3, 5), 5, 0); } });
    v.push_back({ "ext", [](ChunkWriter &w, string &b, std::vector<Msg> &ex) {
        setchunk(w, b, ex, 8); put(w, b, ex, mk(9, 0xffffff, 20, 1), 4, 0); put(w, b, ex, mk(9, 0x1000010, 20, 2), 4, 2); put(w, b, ex, mk(9, 0x3000010, 9, 3), 4, 1); } });
    v.push_back({ "csid", [](ChunkWriter &w, string &b, std::vector<Msg> &ex) {
        put(w, b, ex, mk(8, 1, 4, 1), 63, 0); put(w, b, ex, mk(8, 2, 5, 2), 64, 0); put(w, b, ex, mk(9, 3, 6, 3), 319, 0); put(w, b, ex, mk(9, 4, 7, 4), 320, 0); put(w, b, ex, mk(9, 9, 7, 5), 320, 2); put(w, b, ex, mk(8, 8, 5, 6), 64, 1); } });
    v.push_back({ "chunks", [](ChunkWriter &w, string &b, std::vector<Msg> &ex) {
        setchunk(w, b, ex, 8); put(w, b, ex, mk(9, 5, 17, 1), 6, 0); put(w, b, ex, mk(9, 15, 16, 2), 6, 1); put(w, b, ex, mk(8, 20, 8, 3), 4, 0); put(w, b, ex, mk(8, 30, 7, 4), 4, 1); } });
    v.push_back({ "interleave", [](ChunkWriter &w, string &b, std::vector<Msg> &ex) {
        setchunk(w, b, ex, 6); Msg x = mk(9, 5, 15, 1), y = mk(8, 6, 14, 2); x.csid = 6; y.csid = 4;
        inter(b, w.chunks(x, 6, 0), w.chunks(y, 4, 0), 0x15); ex.push_back(x); ex.push_back(y); } });
    v.push_back({ "aggregate", [](ChunkWriter &w, string &b, std::vector<Msg> &ex) {
        setchunk(w, b, ex, 16); Msg a; a.type = 22; a.ts = 100; a.sid = 1; a.data = tag(9, 1000, pay(9, 9, 1)) + tag(8, 1010, pay(8, 16, 2)) + tag(9, 1040, pay(9, 5, 3));
        put(w, b, ex, a, 6, 0); put(w, b, ex, mk(8, 200, 3, 5), 4, 0); } });
    v.push_back({ "resize", [](ChunkWriter &w, string &b, std::vector<Msg> &ex) {
        setchunk(w, b, ex, 8); put(w, b, ex, mk(9, 5, 20, 1), 6, 0); setchunk(w, b, ex, 32); put(w, b, ex, mk(9, 15, 40, 2), 6, 1); setchunk(w, b, ex, 16); put(w, b, ex, mk(8, 20, 20, 3), 4, 0); } });
    v.push_back({ "resize-partial", [](ChunkWriter &w, string &b, std::vector<Msg> &ex) {
        setchunk(w, b, ex, 8); Msg x = mk(9, 5, 60, 1); x.csid = 6; auto c = w.chunks(x, 6, 0); for (int i = 0; i < 5; i++) b += c[i];
        setchunk(w, b, ex, 12); string rest; for (size_t i = 5; i < c.size(); i++) rest += c[i].substr(1);
        for (size_t p = 0; p < rest.size(); p += 12) b += basic(3, 6) + rest.substr(p, 12);
        ex.push_back(x); put(w, b, ex, mk(8, 9, 5, 3), 4, 0); } });
    v.push_back({ "data+cmd", [](ChunkWriter &w, string &b, std::vector<Msg> &ex) {
        put(w, b, ex, mk(18, 0, 30, 1), 5, 0); Msg c; c.type = 20; c.sid = 0; c.data = enc(Str("nopCall")) + enc(N(9)) + enc(Null()); put(w, b, ex, c, 3, 0); put(w, b, ex, mk(8, 7, 4, 2), 4, 0); } });
    v.push_back({ "empty", [](ChunkWriter &w, string &b, std::vector<Msg> &ex) {
        put(w, b, ex, mk(8, 3, 0, 1), 4, 0); put(w, b, ex, mk(8, 8, 5, 2), 4, 1); put(w, b, ex, mk(9, 8, 0, 3), 6, 0); put(w, b, ex, mk(9, 9, 6, 3), 6, 1); } });
    return v;
}
static const std::vector<Script> &S() { static auto v = scripts(); return v; }

// all single and double read cuts of every script (thorough: triple cuts of the short ones)
static int cut_roots() { int n = 0; for (auto &s : S()) { ChunkWriter w; string b; std::vector<Msg> ex; s.make(w, b, ex); n += (int) b.size(); } return n + (int) S().size(); }
static void cut_case(int root)
{
    const Script *sc = nullptr; size_t first = 0; string b; std::vector<Msg> ex;
    size_t si = 0;
    for (auto &s : S()) { ChunkWriter w; b.clear(); ex.clear(); s.make(w, b, ex); if (root < (int) b.size() + 1) { sc = &s; first = (size_t) root; break; } root -= (int) b.size() + 1; si++; }
    if (!sc) vx::prune();
    std::vector<size_t> cuts;
    if (first == 0) { // byte by byte, or whole
        if (vx::choose(2)) for (size_t i = 1; i < b.size(); i++) cuts.push_back(i);
    } else if (first < b.size()) {
        cuts.push_back(first);
        bool dbl = vx::thorough() || b.size() <= 150;
        if (dbl) { size_t k = first + (size_t) vx::choose((int) (b.size() - first)); if (k > first) cuts.push_back(k);
            if (k > first && vx::thorough() && b.size() <= 100) { size_t l = k + (size_t) vx::choose((int) (b.size() - k)); if (l > k) cuts.push_back(l); } }
    }
    auto *c = start();
    deliver(c, b, cuts);
    string w = sc->name; w += " cut at"; for (size_t i = 0; i < cuts.size() && i < 4; i++) w += " " + std::to_string(cuts[i]);
    vx::note("script %s: %zu bytes, %zu messages", w.c_str(), b.size(), ex.size());
    verify(ex, w.c_str());
}
static void cut_run(int root) { vx::batch([&] { cut_case(root); }); }

// message sequences: size, header form, chunk stream, time step, chunk size
static int seq_roots() { return 3 * 4 * 8; }
static void seq_case(int root)
{
    static const size_t chunks[] = { 8, 128, 3 };
    static const int csids[] = { 4, 63, 64, 320 };
    size_t ch = chunks[root % 3]; int cs = csids[root / 3 % 4]; int rest = root / 12;
    auto *c = start();
    ChunkWriter &w = c->w; string b; std::vector<Msg> ex;
    if (ch != 128) setchunk(w, b, ex, ch);
    size_t sizes[] = { 0, 1, ch - 1, ch, ch + 1, 2 * ch, 2 * ch + 1, 3 * ch };
    static const uint32_t steps[] = { 0, 40, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff };
    uint32_t t = 10; int msgs = 3;
    uint32_t last = 0; bool have = false;
    for (int i = 0; i < msgs; i++) {
        static const int qsz[] = { 1, 3, 4, 6, 2 }; size_t n = sizes[i == 0 ? rest : vx::thorough() ? vx::choose(8) : qsz[vx::choose(5)]];
        uint32_t st = i == 0 ? (vx::choose(2) ? 0xffffff : 10) : steps[vx::choose(vx::thorough() ? 6 : 5)];
        int type = i == 1 ? 8 : 9;
        if (i == 0) t = st; else t += st;
        Msg m = mk(type, t, n, i); m.csid = cs;
        auto &s = w.st[cs];
        int mf = w.max_fmt(m, cs);
        // type 3 right after type 0 is excluded: its delta is defined differently by different peers
        if (mf == 3 && !have) mf = 2;
        int f = mf == 0 ? 0 : vx::choose(mf + 1);
        if (f == 0) have = false; else have = true;
        (void) last; (void) s;
        put(w, b, ex, m, cs, f);
    }
    std::vector<size_t> cuts;
    if (vx::choose(2) && b.size() < 200) for (size_t i = 1; i < b.size(); i++) cuts.push_back(i);
    deliver(c, b, cuts);
    vx::note("chunk %zu csid %d: %zu bytes", ch, cs, b.size());
    for (auto &m : ex) vx::note("  %s", mstr(m).c_str());
    verify(ex, "sequence");
}
static void seq_run(int root) { vx::batch([&] { seq_case(root); }); }

// every interleaving of the chunks of two or three messages, with a chunk size change possible at any point
static int il_roots() { return 5 * 5 * 3; }
static void il_case(int root)
{
    size_t ch = 8;
    static const size_t qs[] = { 9, 16, 26, 27, 33 }, ts[] = { 8, 17, 32, 40, 64 }; const size_t *sizes = vx::thorough() ? ts : qs;
    size_t n1 = sizes[root % 5], n2 = sizes[root / 5 % 5]; int mode = root / 25;
    auto *c = start(); ChunkWriter &w = c->w; string b; std::vector<Msg> ex;
    setchunk(w, b, ex, ch);
    Msg x[3] = { mk(9, mode == 1 ? 0x1000000 : 5, n1, 1), mk(8, 6, n2, 2), mk(18, 7, 24, 3) };
    int cs[3] = { 6, mode == 2 ? 70 : 4, 5 }; size_t pos[3] = { 0, 0, 0 }; int k = vx::thorough() && n1 + n2 <= 34 ? 3 : 2;
    int resized = 0; static const size_t qn[] = { 16, 5, 4096, 2, 1 }, tn[] = { 16, 4, 4096, 5, 7, 64, 2, 1 }; const size_t *ns = vx::thorough() ? tn : qn; int nns = vx::tier_pick(5, 8);
    for (int i = 0; i < 3; i++) x[i].csid = cs[i];
    std::vector<size_t> cuts;
    bool percut = vx::choose(2);
    string desc;
    for (;;) {
        std::vector<int> live; for (int i = 0; i < k; i++) if (pos[i] < x[i].data.size()) live.push_back(i);
        if (live.empty()) break;
        size_t left = 0; for (int i = 0; i < k; i++) left += x[i].data.size() - pos[i];
        int nres = resized >= 2 ? 0 : resized ? vx::tier_pick(1, 2) : left <= 14 ? nns : nns - 2;
        int opt = vx::choose((int) live.size() + nres);
        if (opt >= (int) live.size()) { size_t nn = ns[opt - live.size()]; setchunk(w, b, ex, nn); resized++; desc += " resize" + std::to_string(nn); if (percut) cuts.push_back(b.size()); continue; }
        int i = live[opt]; desc += " " + std::to_string(i);
        bool ext = x[i].ts >= 0xffffff;
        if (pos[i] == 0) { b += basic(0, cs[i]) + be(ext ? 0xffffff : x[i].ts, 3) + be(x[i].data.size(), 3) + (char) x[i].type + le32(1); if (ext) b += be(x[i].ts, 4); }
        else { b += basic(3, cs[i]); if (ext) b += be(x[i].ts, 4); }
        size_t m = std::min(w.chunk, x[i].data.size() - pos[i]); b += x[i].data.substr(pos[i], m); pos[i] += m;
        if (percut) cuts.push_back(b.size());
        if (pos[i] == x[i].data.size()) ex.push_back(x[i]);
    }
    deliver(c, b, cuts);
    vx::note("interleaving%s (message sizes %zu %zu)", desc.c_str(), n1, n2);
    verify(ex, ("interleaving" + desc).c_str());
}
static void il_run(int root) { vx::batch([&] { il_case(root); }); }

// aggregate messages: sizes of sub-messages against chunk boundaries
static int ag_roots() { return 24; }
static void ag_case(int root)
{
    size_t ch = 8 + root;
    auto *c = start(); ChunkWriter &w = c->w; string b; std::vector<Msg> ex;
    setchunk(w, b, ex, ch);
    Msg a; a.type = 22; a.sid = 1; a.ts = vx::choose(2) ? 0x1234567 : 50; int n = 1 + vx::choose(3); static const uint32_t t0[] = { 0, 0xfffff0, 0x1234567, 0xfffffff8u }; uint32_t t = t0[vx::choose(4)];
    for (int i = 0; i < n; i++) { size_t k = (size_t) vx::choose(vx::tier_pick(i == 0 ? 8 : 3, 14)); a.data += tag(i & 1 ? 8 : 9, t, pay(i & 1 ? 8 : 9, i == 0 ? k + 1 : k * 3 + 1, i)); t += 20; }
    put(w, b, ex, a, 6, 0); put(w, b, ex, mk(8, 60, 5, 9), 4, 0);
    std::vector<size_t> cuts; if (vx::choose(2)) for (size_t i = 1; i < b.size(); i++) cuts.push_back(i);
    deliver(c, b, cuts);
    vx::note("aggregate of %d with chunk size %zu", n, ch);
    verify(ex, "aggregate");
}
static void ag_run(int root) { vx::batch([&] { ag_case(root); }); }

// end to end: what a player gets is what the publisher sent
static int e2e_roots() { return 4 * 8; }
static void e2e_case(int root)
{
    int r2 = root / 4; root %= 4;
    static const size_t chunks[] = { 128, 4096, 100, 60000 };
    static Client *old[2]; for (auto *&o : old) if (o) { if (!o->c->closed) o->c->fin(); vx::pump(); delete o; }
    old[0] = new Client; old[1] = new Client; Client &pub = *old[0], &pl = *old[1];
    pub.name = "pub"; if (!pub.publisher("s")) vx::fail("publish refused");
    pl.name = "player"; if (!pl.player("s")) vx::fail("play refused");
    if (chunks[root] != 128) pub.set_chunk(chunks[root]);
    size_t sizes[] = { 6, 127, 128, 129, 4095, 4096, 4097, 5000 };
    std::vector<Msg> sent;
    auto out = [&](Msg m, int cs) { sent.push_back(m); pub.send(m, cs); if (vx::choose(2)) vx::pump(); };
    out(video(0, avc_seq()), 6); out(audio(0, aac_seq()), 4);
    int n = vx::tier_pick(3, 4); uint32_t t = 0;
    for (int i = 0; i < n; i++) {
        size_t k = sizes[i == 0 ? r2 : vx::choose(8)];
        string body; for (size_t j = 0; j < k; j++) body += (char) (j * 7 + i);
        if (i == 1) out(audio(t, aac_raw(body)), 4); else out(video(t, i == 0 ? avc_key(body) : avc_inter(body)), 6);
        t += 40;
    }
    vx::pump(); vx::advance(500); pl.collect();
    auto av = pl.av();
    auto hdr = [](const Msg &m) { return m.data == avc_seq() || m.data == aac_seq(); };
    std::vector<Msg> a, b; bool ha = false, hv = false;
    for (auto &m : av) { if (hdr(m)) { (m.type == 9 ? hv : ha) = true; continue; } if (!(m.type == 9 ? hv : ha)) vx::fail("%s reached the player before its codec header", mstr(m).c_str()); a.push_back(m); }
    for (auto &m : sent) if (!hdr(m)) b.push_back(m);
    if (a.size() != b.size()) vx::fail("player got %zu frames, %zu were sent", a.size(), b.size());
    for (size_t i = 0; i < a.size(); i++) if (a[i].type != b[i].type || a[i].data != b[i].data || a[i].ts != b[i].ts) vx::fail("player frame %zu is %s, sent %s", i, mstr(a[i]).c_str(), mstr(b[i]).c_str());
    for (auto &m : av) { vx::note("%s", mstr(m).c_str()); vx::observe(mstr(m)); }
}
static void e2e_run(int root) { vx::batch([&] { e2e_case(root); }); }
VX_SCENARIOS(
    { "cuts", cut_roots, cut_run, "10 scripts of RTMP messages (header forms 0-3, extended timestamps, 1-3 byte chunk stream ids, interleaving, aggregates, chunk size changes, empty messages): every single and double placement of a read boundary, byte-by-byte and whole delivery" },
    { "seq", seq_roots, seq_run, "sequences of 3 (4) messages over chunk size x chunk stream id x message size around the chunk boundary x time step around the 24-bit limit x every legal header form, delivered whole and byte by byte" },
    { "interleave", il_roots, il_run, "every interleaving of the chunks of 2 (3) messages on different chunk streams, with a chunk size change at every possible point" },
    { "aggregate", ag_roots, ag_run, "aggregate messages of 1-3 parts, part sizes and chunk sizes enumerated around each other" },
    { "e2e", e2e_roots, e2e_run, "publisher to player: message sizes around the chunk sizes, with the server scheduled or not after every message" })
