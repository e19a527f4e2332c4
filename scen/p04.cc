// P04: what a player that joins at any point of any publishing history gets.
#include "live.h"
static const char *PORT = "1935";
static void begin(int ci)
{
    static Client *old; if (old) { if (!old->c->closed) old->c->fin(); vx::pump(); delete old; }
    pub = old = new Client; pub->name = "publisher"; ev.clear();
    if (!pub->publisher("s", "a" + std::to_string(ci), PORT)) vx::fail("publish refused");
}
static Client *join(int ci, int slot)
{
    static Client *old[2]; Client *&o = old[slot]; if (o) { if (!o->c->closed) o->c->fin(); vx::pump(); delete o; }
    o = new Client; o->name = slot ? "player2" : "player1"; if (!o->player("s", "a" + std::to_string(ci), PORT)) vx::fail("play refused"); return o;
}
// every publishing history up to the length, every join point
static int hist_roots() { return 8 * 25; }
static void hist_run(int root)
{
    int ci = root % 8, k0 = root / 8 % 5, k1 = root / 40;
    vx::batch([&] {
        int n = vx::tier_pick(5, 7), mpos = vx::choose(3) * 2 - 1, jn = vx::choose(n); uint32_t t = 1000; bool start0 = vx::choose(2); if (start0) t = 0; // mpos -1 none, 1, 3
        begin(ci); Client *p = nullptr; size_t jidx = 0; int v = 0, mv = 0;
        for (int i = 0; i < n; i++) {
            if (i == jn) { jidx = ev.size(); p = join(ci, 0); }
            if (i + 1 == mpos || i == mpos) emit(5, t, ++mv);
            int k = i == 0 ? k0 : i == 1 ? k1 : vx::choose(5);
            emit(k, t, ++v); if (k <= 2) t += 40;
        }
        vx::note("app a%d: %s", ci, evs(jidx).c_str()); judge(ci, *p, jidx, "player1");
    });
}
// long histories: key distance, audio pattern, header changes; two players
static int long_roots() { return 8 * 6; }
static void long_run(int root)
{
    int ci = root % 8, kd = 2 + root / 8;
    vx::batch([&] {
        int n = vx::tier_pick(11, 20), ap = vx::choose(3), first = vx::choose(kd), hc = vx::choose(n / 2 + 1) * 2, j1 = vx::choose(n - 1), j2 = std::min(n - 1, j1 + vx::choose(4) * 3), step = vx::choose(2) ? 40 : 90; uint32_t t = 500;
        bool pre = vx::choose(2);
        begin(ci); Client *p[2] = { nullptr, nullptr }; size_t ji[2] = { 0, 0 }; int v = 0;
        emit(5, 0, 1); if (pre) { emit(3, 0, ++v); emit(4, 0, ++v); }
        for (int i = 0; i < n; i++) {
            if (i == j1) { ji[0] = ev.size(); p[0] = trc[0] = join(ci, 0); }
            if (i == j2) { ji[1] = ev.size(); p[1] = trc[1] = join(ci, 1); }
            if (hc && i == hc) { emit(3, t, ++v); if (hc & 4) emit(4, t, ++v); }
            emit((i + first) % kd == 0 ? 0 : 1, t, ++v);
            if (ap && i % ap == 0) emit(2, t + 3, ++v);
            t += (uint32_t) step;
        }
        vx::note("app a%d: %s", ci, evs(ji[0]).c_str()); judge(ci, *p[0], ji[0], "player1"); judge(ci, *p[1], ji[1], "player2");
    });
}
// with a cache: a player that stops reading and takes up again, small queue
static int slow_roots() { return 4 * 6; }
static void slow_run(int root)
{
    int ci = 4 + root % 4, kd = 2 + root / 4 * 2; PORT = "1936";
    vx::batch([&] {
int ap = vx::choose(2), j = vx::choose(2) * (kd / 2 + 1), st = vx::choose(vx::tier_pick(2, 5)) * 2 + 1, hc = vx::choose(5), hp = hc ? vx::choose(vx::tier_pick(10, 30)) * vx::tier_pick(3, 1) : 0, len = vx::choose(vx::tier_pick(18, 36)) * vx::tier_pick(2, 1), w = vx::choose(2), tail = 30; uint32_t t = 500; bool fast = vx::choose(2);
        if (kd * (ap ? 3 : 2) / 2 + (hc > 2 ? 3 : hc ? 1 : 0) > 13 || hp > len) return;
        begin(ci); Client *p = nullptr, *q = nullptr; size_t ji = 0; int v = 0;
        emit(5, 0, 1); emit(3, 0, ++v); emit(4, 0, ++v); q = join(ci, 1); size_t jq = ev.size();
        int n = j + st + len + tail;
        for (int i = 0; i < n; i++) {
            if (i == j) { ji = ev.size(); p = join(ci, 0); trc[0] = p; }
            if (i == j + st) p->c->win = w * 17; 
            if (i == j + st + len) { p->c->win = 0; p->c->open_window(-1); vx::pump(); }
            if (hc && i == j + st + hp) { emit(hc & 1 ? 3 : 4, t, ++v); if (hc > 2) { emit(hc & 1 ? 3 : 4, t, ++v); emit(hc & 1 ? 3 : 4, t, ++v); } }
            emit(i % kd == 0 ? 0 : 1, t, ++v); if (ap && i % 2) emit(2, t + 3, ++v);
            t += fast ? 30 : 60;
        }
        string what = "key distance " + std::to_string(kd) + ", stall after " + std::to_string(st) + " for " + std::to_string(len); vx::note("app a%d: %s: %s", ci, what.c_str(), evs(ji).c_str());
        const Conf &c = CF[ci]; if (p->c->closed || q->c->closed) vx::fail("a player was disconnected");
        auto g = received(*p, true), h = received(*q, true); vx::observe(gs(g));
        invariants(c, g, ji, "slow player"); invariants(c, h, jq, "fast player");
        // the fast player misses nothing but the end of the cache delay
        size_t nf = 0, nh = 0; for (size_t i = jq; i < ev.size(); i++) if (ev[i].k <= 2) nf++; for (auto &x : h) if (x.k <= 2) nh++;
        if (nh + 3 < nf) vx::fail("the fast player got %zu of %zu frames: published %s; received %s", nh, nf, evs(jq).c_str(), gs(h).c_str());
        size_t last = 0; for (auto &x : g) if (x.k <= 2) last = std::max(last, x.idx);
        if (last + 24 < ev.size()) vx::fail("the slow player got nothing after frame %zu of %zu, it reads again: published %s; received %s", last, ev.size(), evs(ji).c_str(), gs(g).c_str());
    });
}
// with a cache: groups of pictures longer than the queue; frames may be missing up to the next key frame, no further
static int full_roots() { return 4 * 6; }
static void full_run(int root)
{
    static const int kds[] = { 9, 13, 14, 15, 17, 40 };
    int ci = 4 + root % 4, kd = kds[root / 4]; PORT = "1936";
    vx::batch([&] {
        int ap = vx::choose(3), j = vx::choose(vx::tier_pick(8, 20)), hc = vx::choose(3), hp = hc ? vx::choose(vx::tier_pick(6, 20)) * vx::tier_pick(4, 1) : 0, st = vx::choose(vx::tier_pick(3, 6)) * 5; uint32_t t = 500; bool aonly = vx::choose(5) == 0;
        begin(ci); Client *p = nullptr, *q = nullptr; size_t ji = 0; int v = 0, ovv = 0, ova = 0;
        emit(5, 0, 1); if (!aonly) emit(3, 0, ++v); emit(4, 0, ++v); q = join(ci, 1); size_t jq = ev.size(); size_t first_full = 0, lastk = 0;
        (void) ovv; (void) ova;
        for (int i = 0; i < 100; i++) {
            if (i == j) { ji = ev.size(); p = join(ci, 0); }
            if (st && i == j + 3) p->c->win = 0;
            if (st && i == j + 3 + st) p->c->open_window(-1), p->c->win = -1, vx::pump();
            if (hc && i == 10 + hp) emit(aonly ? 4 : hc == 1 ? 3 : 4, t, ++v);
            if (!aonly) { if (i % kd == 0) lastk = ev.size(); emit(i % kd == 0 ? 0 : 1, t, ++v); }
            if (aonly || (ap && i % ap == 0)) emit(2, t + 3, ++v);
            t += 30;
        }
        (void) first_full;
        vx::note("app a%d key distance %d: %s", ci, kd, evs(ji).c_str());
        const Conf &c = CF[ci]; if (p->c->closed || q->c->closed) vx::fail("a player was disconnected");
        Conf cc = c; auto g = received(*p, true), h = received(*q, true); vx::observe(gs(h));
        invariants(cc, g, ji, "slow player"); invariants(cc, h, jq, "fast player");
        if (aonly) { size_t n = 0; for (auto &x : h) if (x.k == 2) n++; if (n < 95) vx::fail("an audio stream stops: the player got %zu of 100 frames", n); return; }
        // the last key frame must have been delivered if something followed it
        for (auto *l : { &h, &g }) { bool ok = false; for (auto &x : *l) if (x.idx == lastk) ok = true; if (!ok && ev.size() - lastk > 20) vx::fail("nothing is delivered after the cache was full once: published %s; received %s", evs(ji).c_str(), gs(*l).c_str()); }
    });
}
VX_SCENARIOS(
    { "full", full_roots, full_run, "groups of pictures around and above the queue length of 16, with audio, header changes and joins at any point, one player stalled for a while; audio only streams" },
    { "slow", slow_roots, slow_run, "4 cache configurations with a queue of 16 messages x key frame distance 2-12 x audio x join point x stall start x stall length 0-35 (59) x offset in a message x header change while stalled x frame rate" },
    { "hist", hist_roots, hist_run, "8 applications (no cache with wait_key/wait_video/interleave; cache long/short, send_all, low_latency): every publishing history of 5 (7) events over {key frame, inter frame, audio, video header, audio header} with metadata absent or at two places, start time 0 or 1000, and a player joining before every event" },
    { "long", long_roots, long_run, "histories of 11 (20) video frames with every key frame distance 2-7 and phase, 3 audio patterns, header change at any point, two time steps (around the cache length), two players joining at any pair of points" })
