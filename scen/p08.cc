// P08: a player that reads too slowly loses whole messages by a fixed rule, and nobody else notices.
#include "rtmp.h"
using namespace rt;
static const char *ports[] = { "1935", "1936", "1937", "1938" };
static const size_t chunks[] = { 128, 60, 4096, 128 }, merges[] = { 1, 2, 5, 32 };
static const int Q = 12, SYNC = 100;
static string body(size_t n, int salt) { string s = std::to_string(salt) + "."; while (s.size() < n) s += (char) ('a' + s.size() % 26); return s; }
// what the queue of one player holds, from the rules alone
struct Model {
    struct It { Msg m; size_t len; };
    std::deque<It> ring; size_t cum = 0, base = 0; size_t W = 0; bool unlimited = true; std::vector<It> batch; std::vector<Msg> sent; size_t merge, chunk; bool wait_key; bool dead = false;
    bool act[2] = { false, false }; uint32_t drop[2] = { 0, 0 }, lastts[2] = { 0, 0 };
    size_t wire(const Msg &m) const { size_t n = m.data.size(), k = n ? (n + chunk - 1) / chunk : 1; return 11 + (m.ts >= 0xffffff ? 4 * k : 0) + n + k; }
    bool done() const { return unlimited || cum <= W; }
    void run() { while (done()) { if (!batch.empty()) { for (auto &x : batch) sent.push_back(x.m); batch.clear(); }
        if (ring.empty()) return; for (size_t i = 0; i < merge && !ring.empty(); i++) { cum += ring.front().len; batch.push_back(ring.front()); ring.pop_front(); } } }
    std::vector<Msg> written() const { auto v = sent; size_t st = cum; for (auto &b : batch) st -= b.len; for (auto &b : batch) if ((st += b.len) <= W) v.push_back(b.m); return v; }
    bool push(const Msg &m, int prio) { int n = (int) ring.size() + 1; if (n + prio * Q / 4 >= Q) return false; ring.push_back({ m, wire(m) }); return true; }
    // one published frame: k 0 key 1 inter 2 audio 3 video header 4 audio header
    void frame(const Msg &m, int k, const string &vh, const string &ah)
    {
        int a = m.type == 8; uint32_t delta = lastts[a] ? m.ts - lastts[a] : 0; lastts[a] = m.ts; int prio = a ? 0 : k == 0 ? 1 : k == 1 ? 2 : 0; bool mand = k >= 3;
        if (act[a] && drop[a] > (uint32_t) SYNC) { act[a] = false; drop[a] = 0; }
        if (!act[a]) {
            if (mand) return;
            if (wait_key && !a && prio != 1) return;
            Msg h = m; h.data = a ? ah : vh; h.ts = 0; if (!h.data.empty() && !push(h, 0)) return;
            act[a] = true;
        }
        if (!push(m, prio)) { drop[a] += delta; if (mand) dead = true; }
        run();
    }
};
static Client *P, *L, *F; static int cfg, app; static string nm;
static uint32_t ts; static int seq; static Model M; static size_t mark; static std::vector<Msg> all; static string vh, ah; static string hist;
static void drop(Client *&c) { if (!c) return; c->c->wr_policy = nullptr; if (!c->c->closed) { c->c->open_window(-1); c->c->fin(); } vx::pump(); delete c; c = nullptr; }
static std::vector<Msg> media_of(Client &c) { c.collect(); std::vector<Msg> v; for (auto &m : c.r.out) if (m.type == 8 || m.type == 9) v.push_back(m); return v; }
static void put(int k)
{
    static const char kn[] = "KIAVH"; hist += kn[k];
    ts += 40; Msg m; int id = seq++ % 100000;
    switch (k) { case 0: m = video(ts, avc_key(body(20 + id % 3 * 61, id))); break; case 1: m = video(ts, avc_inter(body(9 + id % 2 * 50, id))); break; case 2: m = audio(ts, aac_raw(body(7, id))); break;
    case 3: m = video(ts, avc_seq()); m.data.back() = (char) id; vh = m.data; break; case 4: m = audio(ts, aac_seq() + string(1, (char) id)); ah = m.data; break; }
    all.push_back(m); M.frame(m, k, vh, ah); P->send(m, m.type == 9 ? 6 : 4); vx::pump();
}
static void same(std::vector<Msg> &got, const std::vector<Msg> &want, const char *who, bool complete)
{
    for (size_t i = 0; i < std::max(got.size(), want.size()); i++) {
        if (i >= got.size()) { if (!complete) return; vx::fail("%s: %s did not get message %zu: %s", hist.c_str(), who, i, mstr(want[i]).c_str()); }
        if (i >= want.size()) vx::fail("%s: %s got a message it should not: %s", hist.c_str(), who, mstr(got[i]).c_str());
        bool h = want[i].data.size() > 1 && want[i].data[1] == 0;
        if (got[i].type != want[i].type || got[i].data != want[i].data || (!h && got[i].ts != want[i].ts)) vx::fail("%s: %s got %s as message %zu, expected %s", hist.c_str(), who, mstr(got[i]).c_str(), i, mstr(want[i]).c_str());
    }
}
static void begin()
{
    hist = "";
    bool fresh = !P || P->c->closed || L == nullptr || L->c->closed;
    if (fresh || true) {
        drop(P); drop(L); drop(F); static unsigned n; nm = "s" + std::to_string(n++ % 4); all.clear(); ts = 1000; vh = ah = "";
        P = new Client; P->name = "publisher"; if (!P->publisher(nm, app ? "any" : "live", ports[cfg])) vx::fail("publish refused"); P->set_chunk(60000);
        F = new Client; F->name = "fast player"; if (!F->player(nm, app ? "any" : "live", ports[cfg])) vx::fail("play refused");
        L = new Client; L->name = "slow player"; if (!L->player(nm, app ? "any" : "live", ports[cfg])) vx::fail("play refused");
        M = Model(); M.merge = merges[cfg]; M.chunk = chunks[cfg]; M.wait_key = !app;
    }
    put(3); put(4); put(0); put(2);
}
static void stall(size_t w) { L->c->win = (long) w; M.unlimited = false; M.W = M.cum + w; }
static void credit(size_t w) { hist += "+" + std::to_string(w); M.W += w; L->c->open_window((long) w); M.run(); vx::pump(); }
static void finish()
{
    auto f = media_of(*F); std::vector<Msg> want; bool v = false, a = false;
    // the fast player gets everything from its start point on
    for (size_t i = 0; i < all.size(); i++) { if (i == 0) continue; if (i == 1) continue; if (i == 2) { want.push_back(all[0]); want.push_back(all[2]); v = true; continue; } if (i == 3) { want.push_back(all[1]); want.push_back(all[3]); a = true; continue; } want.push_back(all[i]); }
    (void) v; (void) a;
    if (F->c->closed) vx::fail("%s: the fast player was disconnected", hist.c_str());
    if (P->c->closed) vx::fail("%s: the publisher was disconnected", hist.c_str());
    same(f, want, "the fast player", true);
    if (M.dead) { if (!L->c->closed) vx::fail("%s: a codec header was dropped but the player is still connected", hist.c_str()); auto g = media_of(*L); g.resize(std::min(g.size(), M.sent.size())); same(g, M.sent, "the slow player", false); return; }
    if (L->c->closed) vx::fail("%s: the slow player was disconnected", hist.c_str());
    if (!M.unlimited) { auto g = media_of(*L); same(g, M.written(), "the slow player (while slow)", true); }
    M.unlimited = true; M.run(); L->c->win = 0; L->c->open_window(-1); vx::pump();
    auto g = media_of(*L); same(g, M.sent, "the slow player", true);
    if (!L->r.buf.empty()) vx::fail("%s: the output ends inside a chunk", hist.c_str());
    vx::observe_u64(g.size() * 1000 + all.size());
}
// ring position, backlog, then every sequence of frames and reads
static int q_roots() { return 4 * 2 * 12; }
static void q_run(int root)
{
    cfg = root % 4; app = root / 4 % 2; int phase = root / 8;
    vx::batch([&] {
        begin();
        for (int i = 0; i < phase; i++) put(2);
        int fill = vx::choose(13), kind = vx::choose(2); static const size_t ws[] = { 0, 30 }; stall(ws[vx::choose(2)]); hist += "|";
        for (int i = 0; i < fill; i++) put(kind ? (i % 3 == 2 ? 1 : i % 3 ? 2 : 0) : 2);
        int n = vx::tier_pick(3, 5); static const size_t cr[] = { 1, 120, 400 };
        for (int i = 0; i < n && !M.dead; i++) { int k = vx::choose(vx::thorough() ? 8 : i == 0 ? 8 : 7); if (k < 5) put(k); else credit(k == 5 ? cr[1] : k == 6 ? cr[2] : cr[0]); }
        vx::note("config %d app %d: %s", cfg, app, hist.c_str());
        finish();
    });
}
// long runs: a player that stops for a while and takes up again
static int l_roots() { return 4 * 2 * 6; }
static void l_run(int root)
{
    cfg = root % 4; app = root / 4 % 2; int gop = root / 8 + 2;
    vx::batch([&] {
        int stop = vx::choose(14), len = vx::choose(vx::tier_pick(40, 60)), amix = vx::choose(3), w = vx::choose(3); begin();
        for (int i = 0; i < stop + len + 12; i++) {
            if (i == stop) { stall(w * 35); hist += "|"; }
            if (i == stop + len) { M.unlimited = true; M.run(); hist += "<"; L->c->win = 0; L->c->open_window(-1); vx::pump(); }
            if (w == 2 && i > stop && i < stop + len && i % 5 == 0) credit(70);
            put(i % gop == 0 ? 0 : 1); if (amix && i % amix == 0) put(2);
        }
        vx::note("config %d app %d: %s", cfg, app, hist.c_str());
        finish();
    });
}
// the send timeout
static int t_roots() { return 4 * 2; }
static void t_run(int root)
{
    cfg = root % 4; app = root / 4;
    vx::batch([&] {
        begin(); int n = vx::choose(4), w = vx::choose(2), dt = vx::choose(5); static const int ds[] = { 1, 4000, 4999, 5001, 9000 };
        stall(0); hist += "|"; for (int i = 0; i < n; i++) put(i % 2);
        if (w) { vx::advance(3000); credit(1); hist += " waits 3s, reads 1"; } vx::advance(ds[dt]);
        bool late = n && ds[dt] > 5000;
        if (L->c->closed != late) vx::fail("%s: after %d ms of no progress the slow player is %s", hist.c_str(), ds[dt], late ? "still connected" : "disconnected");
        for (int i = 0; i < 3; i++) { int o = (int) media_of(*F).size(); P->send(video(ts += 40, avc_inter(body(9, seq++))), 6); vx::pump(); if ((int) media_of(*F).size() != o + 1) vx::fail("%s: the fast player does not get its frames", hist.c_str()); }
        vx::observe_u64(late);
    });
}
VX_SCENARIOS(
    { "queue", q_roots, q_run, "4 configurations (chunk size, merge_frame) x 2 applications (wait_key) x 12 positions of the queue of 12 x 13 backlogs of 2 kinds x 2 stall offsets x every sequence of 3 (5) steps over key, inter, audio, new headers and three amounts of reading" },
    { "long", l_roots, l_run, "key frame distances 2-7, every stall start (14) and length (40/60), audio mixes, three reading patterns" },
    { "timeout", t_roots, t_run, "a stalled player with 0-3 messages waiting, with and without progress, over five waiting times around the timeout" })
