// P02: whatever the player's socket accepts and when, what the server writes is
// one well-formed chunk stream that carries the frames sent, in order, intact.
#include "rtmp.h"
using namespace rt;
static const char *ports[] = { "1935", "1936", "1937", "1938", "1939", "1940", "1941" };
static const size_t chunks[] = { 128, 128, 4096, 300, 128, 128, 128 };
static const bool ptf[] = { true, false, true, false, true, true, true };
static string body(size_t n, int salt) { string s; for (size_t i = 0; i < n; i++) s += (char) (i * 13 + salt * 71 + (i >> 7)); return s; }

struct Case {
    Client *pub = nullptr, *pl[2] = { nullptr, nullptr }; int cfg = 0, npl = 1; string nm;
    std::vector<Msg> sent;
    void begin(int cfg_, int npl_)
    {
        static Client *old[3]; for (auto *&o : old) if (o) { if (!o->c->closed) { o->c->wr_policy = nullptr; o->c->open_window(-1); o->c->fin(); } vx::pump(); delete o; o = nullptr; }
        static uint64_t seq; nm = "s" + std::to_string(seq++ % 3);
        cfg = cfg_; npl = npl_;
        pub = old[0] = new Client; pub->name = "publisher"; pub->r.ext3 = ptf[cfg];
        if (!pub->publisher(nm, "live", ports[cfg])) vx::fail("publish refused");
        for (int i = 0; i < npl; i++) { pl[i] = old[1 + i] = new Client; pl[i]->name = "player" + std::to_string(i); pl[i]->r.ext3 = ptf[cfg]; if (!pl[i]->player(nm, "live", ports[cfg])) vx::fail("play refused"); }
        pub->set_chunk(60000); pub->send(meta(), 5); vx::pump();
    }
    void put(const Msg &m) { sent.push_back(m); pub->send(m, m.type == 9 ? 6 : 4); vx::pump(); }
    static bool hdr(const Msg &m) { return m.data == avc_seq() || m.data == aac_seq(); }
    void open() { for (int i = 0; i < npl; i++) { pl[i]->c->wr_policy = nullptr; pl[i]->c->win = 0; pl[i]->c->open_window(-1); } vx::pump(); }
    void verify()
    {
        for (int k = 0; k < npl; k++) {
            Client &p = *pl[k];
            if (p.c->closed) vx::fail("%s was disconnected", p.name.c_str());
            p.collect();
            if (!p.r.buf.empty()) vx::fail("%s: the output ends inside a chunk (%zu bytes left over)", p.name.c_str(), p.r.buf.size());
            for (auto &s : p.r.st) if (!s.second.part.empty()) vx::fail("%s: the output ends inside a message on chunk stream %d", p.name.c_str(), s.first);
            std::vector<Msg> a, b; bool hv = false, ha = false;
            for (auto &m : p.r.out) {
                if (m.type != 8 && m.type != 9) {
                    if ((m.type <= 6) && m.sid != 0) vx::fail("%s: control message on message stream %u: %s", p.name.c_str(), m.sid, mstr(m).c_str());
                    if ((m.type <= 6) && m.csid != 2) vx::fail("%s: control message on chunk stream %d: %s", p.name.c_str(), m.csid, mstr(m).c_str());
                    if (m.type == 18 || m.type == 20) { std::vector<Val> v; if (!dec_all(m.data, v)) vx::fail("%s: undecodable AMF in %s %s", p.name.c_str(), mstr(m).c_str(), hex(m.data,80).c_str()); }
                    continue;
                }
                if (m.sid != 1) vx::fail("%s: media on message stream %u", p.name.c_str(), m.sid);
                if (hdr(m)) { (m.type == 9 ? hv : ha) = true; continue; }
                if (!(m.type == 9 ? hv : ha)) vx::fail("%s: %s arrived before its codec header", p.name.c_str(), mstr(m).c_str());
                a.push_back(m);
            }
            for (auto &m : sent) if (!hdr(m)) b.push_back(m);
            for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
                if (i >= a.size()) vx::fail("%s: frame %zu never arrived: %s (%zu of %zu)", p.name.c_str(), i, mstr(b[i]).c_str(), a.size(), b.size());
                if (i >= b.size()) vx::fail("%s: extra frame: %s", p.name.c_str(), mstr(a[i]).c_str());
                if (!(a[i] == b[i])) vx::fail("%s: frame %zu is %s, sent %s%s", p.name.c_str(), i, mstr(a[i]).c_str(), mstr(b[i]).c_str(), a[i].data == b[i].data ? "" : " (payload)");
            }
            for (auto &m : p.r.out) vx::observe(mstr(m));
            vx::observe_u64(p.c->tx_total);
            bool meta = false; for (auto &m : p.r.out) if (m.type == 18) { std::vector<Val> v; dec_all(m.data, v); for (auto &x : v) if (x.t == Val::OBJ || x.t == Val::ECMA) if (auto *w = x.get("width")) meta = w->num == 640; }
            if (!meta) vx::fail("%s: the metadata never arrived intact", p.name.c_str());
        }
    }
};
static const uint32_t TS[] = { 0, 0xfffffe, 0xffffff, 0x1000000, 0xfffffff0u };
static void script(Case &c, int ts, int shape, const std::function<void(int)> &between)
{
    size_t k = chunks[c.cfg]; uint32_t t = TS[ts]; int n = 0;
    auto put = [&](Msg m) { c.put(m); between(n++); };
    put(video(t, avc_seq())); put(audio(t, aac_seq()));
    // video frames carry 5+4+1 bytes before the body, audio 2
    size_t v[3][3] = { { k - 10, 2 * k - 9, 3 }, { k - 9, 2 * k - 10, k - 11 }, { 3 * k, 1, 2 * k + 5 } };
    put(video(t, avc_key(body(v[shape][0], 1)))); put(audio(t, aac_raw(body(shape == 1 ? k - 2 : 9, 2)))); t += 40;
    put(video(t, avc_inter(body(v[shape][1], 3)))); put(audio(t + 1, aac_raw(body(shape == 0 ? k - 1 : 1, 4)))); t += 40;
    put(video(t, avc_inter(body(v[shape][2], 5))));
}
static size_t script_len(int cfg, int ts, int shape, int npl)
{
    Case c; c.begin(cfg, npl); size_t base = c.pl[0]->c->tx_total; script(c, ts, shape, [](int) {}); c.verify(); return c.pl[0]->c->tx_total - base;
}
// the socket stops after p bytes, and again after q more
static int st_roots() { return 4 * 3 * 5; }
static void st_run(int root)
{
    int cfg = root % 4, shape = root / 4 % 3, ts = root / 12;
    size_t len = 0;
    vx::batch([&] {
        if (!len) len = script_len(cfg, ts, shape, 1);
        size_t step = vx::thorough() || len < 3000 ? 1 : 7; // 7 is coprime to every chunk size used
        size_t p = step * (size_t) vx::choose((int) (len / step) + 1);
        static const size_t qs[] = { 0, 1, 12, 13, 140, 16, 5, 1000 };
        size_t q = qs[vx::choose(vx::tier_pick(5, 8))]; bool late = vx::choose(2);
        Case c; c.begin(cfg, 1); c.pl[0]->c->win = (long) p;
        script(c, ts, shape, [&](int i) { if (late && i == 3) { c.pl[0]->c->open_window((long) q); vx::pump(); } });
        if (!late) { c.pl[0]->c->open_window((long) q); vx::pump(); }
        c.open(); vx::note("config %d shape %d ts %u stop at %zu then +%zu%s", cfg, shape, TS[ts], p, q, late ? " mid-way" : ""); c.verify();
    });
}
// two players on the same frames, stopped at different places
static int tw_roots() { return 4 * 3 * 2; }
static void tw_run(int root)
{
    int cfg = root % 4, shape = root / 4 % 3, ts = root / 12 ? 2 : 0;
    size_t len = 0;
    vx::batch([&] {
        if (!len) len = script_len(cfg, ts, shape, 2);
        size_t s1 = std::max<size_t>(1, len / (size_t) vx::tier_pick(60, 300)), s2 = std::max<size_t>(1, len / (size_t) vx::tier_pick(9, 40));
        size_t p = s1 * (size_t) vx::choose((int) (len / s1) + 1), q = s2 * (size_t) vx::choose((int) (len / s2) + 1);
        int wake = vx::choose(8);
        Case c; c.begin(cfg, 2); c.pl[0]->c->win = (long) p; c.pl[1]->c->win = (long) q;
        script(c, ts, shape, [&](int i) { if (i == wake) { c.pl[1]->c->open_window(-1); vx::pump(); } });
        c.pl[0]->c->open_window(13); vx::pump();
        c.open(); vx::note("config %d shape %d: players stop at %zu and %zu, the second resumes after message %d", cfg, shape, p, q, wake); c.verify();
    });
}
// each write call: everything, one byte, half, all but one, or EAGAIN; a bounded number of times
static int wp_roots() { return 4 * 3 * 2; }
static void wp_run(int root)
{
    int cfg = root % 4, shape = root / 4 % 3, ts = root / 12 ? 2 : 0;
    vx::batch([&] {
        int left = vx::tier_pick(3, 4), calls = 0, max = vx::tier_pick(12, 16); string d;
        Case c; c.begin(cfg, 1); auto *sock = c.pl[0]->c.get(); sock->win = 0;
        sock->wr_policy = [&](vx::Sock &, long want) -> long {
            if (!left || calls++ >= max) return want;
            int k = vx::choose(5); if (k == 0) return want;
            left--; d += " w" + std::to_string(calls) + "=" + std::to_string(k);
            long n = k == 1 ? 1 : k == 2 ? want / 2 : k == 3 ? want - 1 : 0; return n;
        };
        script(c, ts, shape, [&](int i) { if (i & 1) { sock->open_window(0); vx::pump(); } });
        for (int i = 0; i < 8; i++) { sock->open_window(0); vx::pump(); }
        c.open(); vx::note("config %d shape %d writes%s", cfg, shape, d.c_str()); c.verify();
    });
}
// every position of the queue of waiting messages x every backlog it can hold, twice in a row
static int rg_roots() { return 3 * 16; }
static void rg_run(int root)
{
    int cfg = 4 + root % 3, phase = root / 3;
    vx::batch([&] {
        Case c; c.begin(cfg, 1); int id = 0; c.put(video(0, avc_seq())); c.put(audio(0, aac_seq()));
        auto put = [&] { c.put(audio(10 + id, aac_raw(body(5 + id % 3 * 70, id)))); id++; };
        put(); for (int i = 0; i < phase; i++) put();
        int n = vx::choose(15), m = vx::choose(15); static const size_t ws[] = { 0, 1, 20, 200 }; size_t w = ws[vx::choose(4)]; int one = vx::choose(vx::tier_pick(3, 20));
        c.pl[0]->c->win = (long) w; for (int i = 0; i < n; i++) put();
        if (one < 2) { c.pl[0]->c->open_window(one ? 30 : -1); vx::pump(); if (one && m + n > 13) m = n > 13 ? 0 : 13 - n; } else { for (int i = 0; i < 60; i++) { c.pl[0]->c->open_window(one * 7 + 1); vx::pump(); } c.pl[0]->c->win = 0; c.pl[0]->c->open_window(-1); vx::pump(); }
        if (one != 1) { c.pl[0]->c->win = (long) w; } for (int i = 0; i < m; i++) put();
        vx::note("config %d, queue position +%d, %d waiting, then %d, window %zu, resume %d", cfg, phase, n, m, w, one);
        c.open(); c.verify();
    });
}
VX_SCENARIOS(
    { "ring", rg_roots, rg_run, "3 merge settings x 16 positions in a queue of 16 messages x 0-14 waiting messages, twice, x 4 stall offsets x 3 (20) ways to resume" },
    { "stall", st_roots, st_run, "4 output configurations (chunk size, play_time_fix, merge_frame, interleave) x 3 message-size shapes around the chunk size x 5 timestamps around the 24-bit limit: the player's socket stops at every byte offset of the output, then again after q more bytes, during or after the stream" },
    { "two", tw_roots, tw_run, "two players sharing the frames, stopped at enumerated pairs of offsets and resumed after every message" },
    { "writes", wp_roots, wp_run, "every write call accepts all, 1 byte, half, all but one byte or nothing: every placement of up to 3 (4) such deviations over the first 12 (16) calls" })
