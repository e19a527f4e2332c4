// P16: an HTTP-TS response is the live stream as a transport stream, whatever the socket does.
#include "http.h"
#include "media.h"
#include <algorithm>
#include <memory>
using namespace rt;
static std::vector<E> ev; static std::vector<int> hv, ha; static int V, A; static string hist; static Client *pub;
static void drop(Client *&c) { if (!c) return; if (c->c && !c->c->closed) c->c->fin(); vx::pump(); delete c; c = nullptr; }
static void fresh() { drop(pub); ev.clear(); hv.clear(); ha.clear(); V = A = -1; eseq = 0; vhs.clear(); ahs.clear(); hist = ""; hevc = false; }
static void start(const string &app, const string &nm = "s") { pub = new Client; pub->name = "publisher"; if (!pub->publisher(nm, app)) vx::fail("%s: publish refused", hist.c_str()); }
static void emit(const E &e) { ev.push_back(e); if (e.k == 3) V = e.hv; if (e.k == 4) A = e.ha; hv.push_back(V); ha.push_back(A); put(*pub, e); if (pub->c->closed) vx::fail("%s: the publisher was disconnected", hist.c_str()); }
static void tsplay(Http &h, const string &path, const string &ver) { h.name = "HTTP-TS player"; h.get(path, ver); vx::pump(); }
static string es() { string s; for (size_t i = 0; i < ev.size(); i++) s += string(1, KC[ev[i].k]) + std::to_string(ev[i].ts) + " "; return s; }
static string hevcbad(const Pes &p, const E &e, const VHdr &h)
{
    std::vector<string> n, m, w; if (!annexb(p.data, n)) return "no start code"; bool vps = false, sps = false, pps = false, early = false;
    for (auto &x : n) { if (x.empty()) return "an empty NAL unit"; int ty = x[0] >> 1 & 63; if (ty >= 32 && ty <= 35) { if (x == h.vps || x == e.nals[0]) vps = true; vps |= ty == 32; sps |= ty == 33; pps |= ty == 34; bool own = x == h.vps || x == h.sps || x == h.pps || x == "\x46\x01\x50"; for (auto &y : e.nals) own |= x == y; if (!own) return "a parameter set that is not current"; continue; }
        if (ty >= 16 && ty <= 23 && !(vps && sps && pps)) early = true; m.push_back(x); }
    for (auto &x : e.nals) { int ty = x[0] >> 1 & 63; if (ty < 32 || ty > 35) w.push_back(x); }
    if (early) return "a key frame without parameter sets";
    if (m != w) return "should hold " + string(1, KC[e.k]) + "@" + std::to_string(e.ts);
    uint64_t D = 1ull << 33, dts = (uint64_t) e.ts * 90 + 63000, pts = dts + (uint64_t) ((int64_t) e.cts * 90);
    if (p.dts != dts % D || p.pts != pts % D) return string(1, KC[e.k]) + "@" + std::to_string(e.ts) + " composition " + std::to_string(e.cts) + " has pts " + std::to_string(p.pts) + " dts " + std::to_string(p.dts);
    if (p.rai != (e.k == 0) || p.haspcr != (e.k == 0)) return "wrong random access mark";
    return "";
}
static bool answered(Http &h, const string &ver)
{
    h.check(); if (h.raw.empty()) return false;
    if (!h.head) vx::fail("%s: the response has no complete header", hist.c_str());
    if (h.status != 200) vx::fail("%s: status %d", hist.c_str(), h.status);
    if (h.chunked && ver == "1.0") vx::fail("%s: chunked response to an HTTP/1.0 request", hist.c_str()); if (h.clen >= 0) vx::fail("%s: a live stream of announced length", hist.c_str());
    if (h.c->closed || h.c->gone()) vx::fail("%s: the HTTP connection was closed", hist.c_str());
    return true;
}
static size_t vnext(size_t i) { for (i++; i < ev.size(); i++) if (ev[i].k <= 1 && hv[i] >= 0) return i; return ev.size(); }
static std::map<size_t, size_t> *stats;
// how: 0 no cache, 1 the whole cache (cache ms), 2 a prefix of it
static void judge(Http &h, size_t join, int how, uint32_t cache, const string &ver, const char *who)
{
    string W = hist + " " + who + " joined before event " + std::to_string(join); size_t live = ev.size(), first = ev.size();
    for (size_t i = ev.size(); i-- > 0; ) if (ev[i].k <= 1 && hv[i] >= 0) { if (i >= join) live = i; if (ev[i].k == 0 && (how || i >= join)) first = i; }
    bool got = answered(h, ver);
    if (first == ev.size()) { if (got) vx::fail("%s: received %zu bytes before any key frame", W.c_str(), h.raw.size()); return; }
    if (live == ev.size() && !got) return; // nothing that wakes it
    if (!got) vx::fail("%s: nothing received (%s)", W.c_str(), es().c_str());
    TsFile t = ts_parse(h.all(), nullptr, true); if (!t.ok) vx::fail("%s: %s (%s)", W.c_str(), t.err.c_str(), es().c_str());
    bool wa = false; for (size_t i = 0; i <= std::min(std::max(first, join), ev.size() - 1); i++) wa |= ev[i].k == 4 || ev[i].k == 2;
    if (t.vtype != (hevc ? 0x24 : 0x1b) || t.atype != (wa ? 0x0f : 0)) vx::fail("%s: the PMT announces stream types %d and %d", W.c_str(), t.vtype, t.atype);
    std::vector<Pes *> v; std::vector<std::pair<Adts, Pes *>> a;
    for (auto &p : t.pes) if ((p.sid & 0xf0) == 0xe0) v.push_back(&p); else { std::vector<Adts> x; if (!adts(p.data, x) || x.empty()) vx::fail("%s: broken ADTS framing", W.c_str()); for (size_t k = 0; k < x.size(); k++) a.push_back({ x[k], k ? nullptr : &p }); }
    auto bad = [&](size_t i, Pes &p) { return hevc ? hevcbad(p, ev[i], vhs[(size_t) hv[i]]) : badvideo(p, ev[i], vhs[(size_t) hv[i]]); };
    if (v.empty()) vx::fail("%s: no video (%s)", W.c_str(), es().c_str());
    size_t s = first; if (how) { // the cache may begin at a later key frame: then what it dropped was old
        string b = "x"; for (; s < ev.size(); s++) if (ev[s].k == 0 && hv[s] >= 0 && (b = bad(s, *v[0])).empty()) break;
        if (s == ev.size()) vx::fail("%s: starts with something else than a key frame: %s (%s)", W.c_str(), bad(first, *v[0]).c_str(), es().c_str());
        if (s > first) { if (live < s) vx::fail("%s: starts at event %zu, after %zu (%s)", W.c_str(), s, live, es().c_str()); if (live != ev.size() && ev[live].ts - ev[s].ts < cache) vx::fail("%s: starts at event %zu although older ones must be in the cache (%s)", W.c_str(), s, es().c_str()); }
    }
    size_t i = s, K = s;
    for (auto *p : v) { if (i == ev.size()) vx::fail("%s: more video frames than published (%s)", W.c_str(), es().c_str()); string b = bad(i, *p); if (!b.empty()) vx::fail("%s: video frame for event %zu: %s (%s)", W.c_str(), i, b.c_str(), es().c_str()); i = vnext(i); }
    if (i != ev.size() && how != 2) vx::fail("%s: event %zu not received (%s)", W.c_str(), i, es().c_str());
    // audio: one run of frames
    std::vector<size_t> ai; for (size_t k = 0; k < ev.size(); k++) if (ev[k].k == 2 && ha[k] >= 0 && V >= 0) ai.push_back(k);
    size_t q = 0; if (!a.empty()) { while (q < ai.size() && ev[ai[q]].raw != a[0].first.data) q++; if (q == ai.size()) vx::fail("%s: an audio frame never published: '%s'", W.c_str(), a[0].first.data.substr(0, 20).c_str()); }
    else while (q < ai.size() && ai[q] < K) q++;
    size_t q0 = q; for (auto &x : a) { if (q == ai.size()) vx::fail("%s: more audio than published", W.c_str()); const E &e = ev[ai[q]]; const AHdr &hd = ahs[(size_t) ha[ai[q]]]; q++;
        if (x.first.data != e.raw || x.first.obj != hd.obj || x.first.sr != hd.sr || x.first.ch != hd.ch) vx::fail("%s: audio frame for event %zu: '%s' %d %d %d (%s)", W.c_str(), ai[q - 1], x.first.data.substr(0, 20).c_str(), x.first.obj, x.first.sr, x.first.ch, es().c_str());
        if (x.second) { int64_t d = (int64_t) ((x.second->pts - ((uint64_t) e.ts * 90 + 63000)) & ((1ull << 33) - 1)); if (d > 1ll << 32) d -= 1ll << 33; if (d > 180 || d < -180) vx::fail("%s: audio of %u has pts %llu", W.c_str(), e.ts, (unsigned long long) x.second->pts); } }
    if (q0 < ai.size() && ai[q0] > K && q0 && ai[q0 - 1] > K) vx::fail("%s: audio event %zu missing (%s)", W.c_str(), ai[q0 - 1], es().c_str());
    if (!how && q0 < ai.size() && !a.empty() && ev[ai[q0]].ts + 600 < ev[K].ts) vx::fail("%s: old audio", W.c_str());
    if (how != 2) while (q < ai.size()) { if (ev[ai[q]].ts + 320 < ev.back().ts && ev[ai[q]].ts + 320 < ev[vnext((size_t) -1) == ev.size() ? 0 : ev.size() - 1].ts) { bool later = false; for (size_t k = ai[q]; k < ev.size(); k++) later |= ev[k].k <= 2 && ev[k].ts > ev[ai[q]].ts + 320; if (later) vx::fail("%s: audio event %zu missing (%s)", W.c_str(), ai[q], es().c_str()); } q++; }
}
// ---- every history, players joining before every event
static const char *APP[] = { "t0", "t1", "t2", "t3" }; static const int HOW[] = { 0, 1, 1, 2 }; static const uint32_t CACHE[] = { 0, 30000, 500, 30000 };
static int same_roots() { return 4 * 2 * 2 * 7; }
static void same_run(int root)
{
    int ai = root % 4, hv_ = root / 4 % 2, aud = root / 8 % 2, k0 = root / 16;
    vx::batch([&] {
        int n = vx::tier_pick(4, 5), mode = vx::choose(2); uint32_t t = mode ? 95443600 : 1000, step = mode ? 400 : 40; fresh(); hevc = hv_; hist = string(APP[ai]) + (hevc ? " HEVC" : ""); start(APP[ai]);
        emit(mk(3, t)); if (aud) emit(mk(4, t)); std::vector<std::unique_ptr<Http>> pl; std::vector<size_t> at;
        auto join = [&] { pl.emplace_back(new Http); at.push_back(ev.size()); tsplay(*pl.back(), string("/") + APP[ai] + "/s.ts", at.size() % 2 ? "1.1" : "1.0"); };
        for (int i = 0; i < n; i++) {
            join(); int k = i ? vx::choose(aud ? 7 : 5) : aud ? k0 : k0 % 5; if (!aud && k > 2) k = k == 3 ? 4 : 6;
            switch (k) { case 0: emit(mk(0, t)); break; case 1: emit(mk(1, t)); break; case 2: emit(mk(0, t, 1)); break; case 3: emit(mk(2, t, i % 2 * 4)); break; case 4: emit(mk(3, t)); break; case 5: emit(mk(4, t)); break; case 6: emit(mk(1, t, 2 + i % 3)); break; }
            if (k != 4 && k != 5) t += step;
        }
        join(); emit(mk(0, t)); emit(mk(1, t + 500, 4)); emit(mk(0, t + 1000, 3));
        for (size_t i = 0; i < pl.size(); i++) judge(*pl[i], at[i], HOW[ai], CACHE[ai], (i + 1) % 2 ? "1.1" : "1.0", "player");
        for (auto &p : pl) { p->c->fin(); vx::pump(); if (!p->c->closed) vx::fail("%s: a player's connection stays open", hist.c_str()); }
        vx::observe(es());
    });
}
// ---- every position at which the socket may block
static int press_roots() { return 3 * 3 * 2 * 4; }
static void press_run(int root)
{
    static const char *PA[] = { "t0", "m8", "t1" }; int pi = root % 3, big = root / 9 % 2, pat = root / 18; string app = PA[pi], path = root / 3 % 3 == 1 && !pi ? "/nc/s.ts" : "/" + app + "/s.ts", ver = root / 3 % 3 == 2 ? "1.0" : "1.1"; if (root / 3 % 3 == 1 && pi) return;
    vx::batch([&] {
        int b = vx::choose(big ? 200 : 150), r = pat == 1 ? 0 : vx::choose(3); size_t at = (size_t) b * (big ? 41 : 13) + (size_t) r; if (pat == 1 || pat == 2) at = (size_t) (b * (big ? 7 : 2) + 1);
        fresh(); hist = app + " HTTP/" + ver + " pattern " + std::to_string(pat) + " at " + std::to_string(at) + " release " + std::to_string(r); start(app); uint32_t t = 1000; emit(mk(3, t)); emit(mk(4, t)); if (pi == 2) { emit(mk(0, t)); emit(mk(2, t)); emit(mk(1, t += 40)); }
        Http h; tsplay(h, path, ver); size_t j = ev.size(); int held = 0;
        if (pat == 1) h.c->wr_policy = [at](vx::Sock &, long want) { return std::min<long>(want, (long) at); }; else h.c->win = (long) at;
        auto step = [&](int k) {
            E e = mk(k, t, k == 2 ? 0 : 4); if (big && k <= 1) { e.nals = { e.nals[0] + string(1500 + 137 * ev.size(), 'x') }; e.data = e.data.substr(0, 5) + ext(e.nals); } emit(e); if (k <= 2) t += 40;
            if (pat == 2) { if (r == 2) vx::advance(10); h.c->open_window((long) at); vx::pump(); }
            if ((pat == 0 || pat == 3) && h.c->win == 0 && held++ >= r) { if (pat == 3 && held < 100) { h.c->open_window((long) (1 + at % 97)); held = 100; } else { h.c->open_window(-1); h.c->win = -1; } vx::pump(); }
        };
        for (int k : { 0, 2, 1, 1, 2, 0, 1, 2, 4, 2, 0, 1 }) step(k);
        string part = (h.collect(), h.all());
        h.c->open_window(-1); h.c->win = -1; h.c->wr_policy = nullptr; vx::pump(); t += 500; emit(mk(0, t)); judge(h, j, pi == 2, 30000, ver, "player"); if (h.all().compare(0, part.size(), part)) vx::fail("%s: not the same stream", hist.c_str());
        h.c->fin(); vx::pump(); if (!h.c->closed) vx::fail("%s: the connection stays open", hist.c_str());
    });
}
// ---- frames of every size
static int size_roots() { return 4 * 3; }
static void size_run(int root)
{
    int kind = root % 4, ck = root / 4; static const uint32_t CK[] = { 128, 4096, 65536 };
    std::vector<size_t> sz; for (size_t n = 1; n < (size_t) vx::tier_pick(420, 1500); n++) sz.push_back(n); if (kind != 3) for (size_t n = 65480; n < 65560; n++) sz.push_back(n); else for (size_t n = 8170; n < 8185; n++) sz.push_back(n); if (kind <= 1) for (size_t n : { 300000, 1000000 }) sz.push_back(n);
    for (size_t at = 0; at < sz.size(); at += 60) {
        fresh(); hist = "sizes from " + std::to_string(sz[at]) + " kind " + std::to_string(kind); start("t0"); pub->set_chunk(CK[ck]); uint32_t ts = 1000; emit(mk(3, ts)); emit(mk(4, ts)); Http h; tsplay(h, "/t0/s.ts", "1.1"); size_t j = ev.size(); emit(mk(0, ts));
        for (size_t i = at; i < sz.size() && i < at + 60; i++) {
            size_t n = sz[i]; ts += kind == 3 ? i % 2 * 200 : 40; E e = mk(kind == 0 ? 0 : kind == 3 ? 2 : 1, ts);
            if (kind == 3) { e.raw = std::to_string(i) + "z"; e.raw = n < 5 ? e.raw.substr(0, n) : e.raw + string(n - e.raw.size(), 'z'); e.data = "\xaf\x01" + e.raw; } else { e.nals = { string(1, e.nals[0][0]) + string(n - 1, 'q') }; e.cts = kind == 2 ? 40 : 0; e.data = e.data.substr(0, 2) + be((uint32_t) e.cts, 3) + ext(e.nals); }
            emit(e);
        }
        emit(mk(1, ts + 1000)); judge(h, j, 0, 0, "1.1", "player"); h.c->fin(); vx::pump(); vx::count(1, 60, 60);
    }
    vx::note("kind %d: %zu sizes", kind, sz.size());
}
// ---- malformed media
static int malf_roots() { return 7 * 3; }
static void malf_run(int root)
{
    int kind = root % 7, ck = root / 7; static const uint32_t CK[] = { 3, 16, 65536 };
    auto make = [&](uint32_t ts) -> E { E e; switch (kind) { case 0: e = mk(3, ts); break; case 1: e = mk(4, ts); break; case 2: e = mk(0, ts, 1); break; case 3: e = mk(1, ts, 1); break; case 4: e = mk(2, ts); break; case 5: e = mk(1, ts); e.data = e.data.substr(0, 5) + ext({ string("\0\0\0\1\x02\x01zz", 8), string("\x09"), string("\0", 1) }); break; default: hevc = true; e = mk(0, ts, 1); e.data = e.data.substr(0, 5) + ext({ string("\0\0\0\1\x02\x01zz", 8), string("\x40\x01v"), string("\0\0\0\2yyy", 7), string("\0", 1), string("\0\0\0\1", 4) }); break; } return e; };
    fresh(); size_t len = std::min<size_t>(60, make(0).data.size()); static const int BY[] = { 0, 1, 2, 5, 0x1f, 0x7f, 0x80, 0xff };
    for (size_t c = 0; c < len + len * 8; c++) for (int aac = 0; aac < 2; aac++) {
        fresh(); hevc = kind == 6; uint32_t ts = 1000; start("t0"); pub->set_chunk(CK[ck]); Http h; tsplay(h, "/t0/s.ts", "1.0"); bool gone = false;
        auto raw = [&](int k, uint32_t t) { E e = mk(k, t); if (pub->c->closed) { gone = true; drop(pub); start("t0"); put(*pub, mk(3, t)); if (aac) put(*pub, mk(4, t)); } put(*pub, e); return e; };
        bool lead = (c + (size_t) aac) % 3; if (kind != 6 || 1) raw(3, ts); if (aac) raw(4, ts); if (lead) { raw(0, ts); if (aac) raw(2, ts); }
        E e = make(ts + 20); hist = "kind " + std::to_string(kind) + (aac ? " with audio" : "");
        if (c < len) { e.data = e.data.substr(0, c); hist += " cut to " + std::to_string(c); } else { size_t p = (c - len) / 8; e.data[p] = (char) BY[(c - len) % 8]; hist += " byte " + std::to_string(p) + " is " + std::to_string(BY[(c - len) % 8]); }
        put(*pub, e); if (pub->c->closed && kind >= 2) vx::fail("%s: disconnected", hist.c_str());
        E k; raw(3, ts + 40); VHdr vh = vhs.back(); if (aac) raw(4, ts + 40); E l = raw(0, ts + 1100); if (aac) raw(2, ts + 1100); k = raw(0, ts + 2200); vh = vhs.back();
        if (h.c->closed) vx::fail("%s: the player was disconnected", hist.c_str()); h.check(); TsFile t = ts_parse(h.all(), nullptr, !gone);
        if (!t.ok && t.err.find("not in the PMT") == string::npos) vx::fail("%s: %s", hist.c_str(), t.err.c_str());
        if (t.ok) { Pes *last = nullptr, *b4 = nullptr; for (auto &p : t.pes) if ((p.sid & 0xf0) == 0xe0) { b4 = last; last = &p; } if (!last || !b4) vx::fail("%s: the last key frames were not received", hist.c_str()); string w = hevc ? hevcbad(*last, k, vh) : badvideo(*last, k, vh); if (w.empty()) w = hevc ? hevcbad(*b4, l, vh) : badvideo(*b4, l, vh); if (!w.empty()) vx::fail("%s: the last key frames: %s", hist.c_str(), w.c_str()); }
        h.c->fin(); vx::pump(); vx::count(1, 1, 1);
    }
    vx::note("kind %d: %zu cuts", kind, len);
}
// ---- who gets which stream
struct UrlCase { const char *path; const char *app, *name; int status; };
static const UrlCase UC[] = {
    { "/live/s.ts", "t0", "s", 200 }, { "/live/s", "t0", "s", 200 }, { "/t1/s.ts", "t1", "s", 200 }, { "/t1/s", "t1", "s", 200 }, { "/live/dir/s.ts", "t0", "s", 200 }, { "/live/s.ts?app=t1", "t1", "s", 200 }, { "/t0/s.ts?app=t1&x=y", "t1", "s", 200 }, { "/t0/s.ts?x=y", "t0", "s", 200 },
    { "/live/t.ts", "t0", "t", 200 }, { "/t1/t.ts?k=%20", "t1", "t", 200 }, { "/live/s%2ets", "t0", "s", 200 }, { "/live/", "", "", 400 }, { "/live", "", "", 400 }, { "/live/.ts", "", "", 400 }, { "/zz/s.ts", "", "", 404 }, { "/live/s.ts?app=zz", "", "", 404 }, { "/t1/s.ts.ts", "t1", "s", 200 }, { "/ni/s.ts", "", "", 404 }, { "/ni/u.ts", "ni", "u", 200 } };
static int url_roots() { return (int) (sizeof UC / sizeof *UC) * 3; }
static void url_run(int root)
{
    const UrlCase &u = UC[root / 3]; string ver = root % 3 == 2 ? "1.0" : "1.1", meth = root % 3 == 1 ? "HEAD" : "GET"; fresh();
    std::vector<std::pair<string, string>> st = { { "t0", "s" }, { "t1", "s" }, { "t0", "t" }, { "t1", "t" }, { "ni", "u" } };
    std::vector<std::unique_ptr<Client>> pubs; for (auto &x : st) { pubs.emplace_back(new Client); if (!pubs.back()->publisher(x.second, x.first)) vx::fail("publish refused"); put(*pubs.back(), mk(3, 0)); }
    vx::batch([&] {
        int before = vx::choose(2), extra = vx::choose(4); uint32_t t = 100; string xh = extra == 1 ? "Referer: http://x/\r\n" : extra == 2 ? "Range: bytes=0-10\r\n" : extra == 3 ? "Content-Length: 5\r\n" : "";
        auto fr = [&] { for (size_t i = 0; i < st.size(); i++) { string nal = "\x65" + st[i].first + st[i].second + std::to_string(t); pubs[i]->send(video(t, string("\x17\1\0\0\0", 5) + ext({ nal })), 6); } vx::pump(); t += 40; };
        if (before) fr();
        Http h; h.open(); h.c->send(Http::req(u.path, ver, meth, xh)); if (extra == 3) h.c->send("hello"); vx::pump(); uint32_t t0 = t; fr(); fr(); h.check();
        if (!h.head) vx::fail("%s %s: no response", meth.c_str(), u.path); if (h.status != u.status) vx::fail("%s %s: status %d, expected %d", meth.c_str(), u.path, h.status, u.status);
        if (u.status == 200 && meth == "GET") {
            TsFile f = ts_parse(h.all()); if (!f.ok) vx::fail("%s: %s", u.path, f.err.c_str()); std::vector<string> got, want; for (auto &p : f.pes) { std::vector<string> n; annexb(p.data, n); got.push_back(n.empty() ? "" : n.back()); }
            for (uint32_t x = t0; x < t; x += 40) want.push_back("\x65" + string(u.app) + u.name + std::to_string(x));
            if (u.app[1] == '1' && got.size() >= want.size()) { for (auto &g : got) if (g.compare(0, 4, string("\x65") + u.app + u.name)) vx::fail("%s: received a frame of another stream", u.path); got.erase(got.begin(), got.end() - 2); }
            if (got != want) vx::fail("%s: received %zu frames, expected the %zu of %s/%s", u.path, got.size(), want.size(), u.app, u.name);
        } else if (meth == "HEAD" && u.status == 200 && h.raw.size() != h.pos) vx::fail("HEAD answered with a body of %zu bytes", h.raw.size() - h.pos);
        vx::observe(std::to_string(h.status)); h.c->fin(); vx::pump(); if (!h.c->closed) vx::fail("%s: the connection stays open after the client left", u.path);
    });
}
// ---- players and publishers come and go; small queues
static int life_roots() { return 4 * 7; }
static void life_run(int root)
{
    static const char *LA[] = { "t0", "t1", "q0", "q1" }; string app = LA[root % 4]; int k0 = root / 4; bool cache = root % 2, small = root % 4 >= 2;
    vx::batch([&] {
        fresh(); hist = app + ":"; int n = vx::tier_pick(6, 7); std::unique_ptr<Client> p; std::unique_ptr<Http> h[2]; bool up = false; uint32_t t = 1000; std::vector<string> sent; std::vector<char> key; std::vector<int> who; size_t jn[2] = { 0, 0 }; int pubs = 0; std::vector<VHdr> hd; bool lag[2] = { false, false }, multi[2] = { false, false };
        auto judge2 = [&](int i, bool quiet) { h[i]->check(); bool any = !h[i]->raw.empty(); if (any && (h[i]->head || h[i]->c->win < 0) && h[i]->status != 200) vx::fail("%s: status %d", hist.c_str(), h[i]->status); std::vector<size_t> got;
            if (any) { if (h[i]->c->win >= 0) return; TsFile f = ts_parse(h[i]->all(), nullptr, !multi[i] && !small); if (!f.ok) vx::fail("%s: player %d: %s", hist.c_str(), i, f.err.c_str());
                for (auto &x : f.pes) { std::vector<string> nn; if (!annexb(x.data, nn)) vx::fail("%s: no start code", hist.c_str()); size_t k = 0; while (k < sent.size() && sent[k] != nn.back()) k++; if (k == sent.size()) vx::fail("%s: a frame never published", hist.c_str()); if (!got.empty() && k <= got.back()) vx::fail("%s: player %d received frame %zu after %zu", hist.c_str(), i, k, got.back());
                    bool cont = !got.empty() && k == got.back() + 1 && who[k] == who[got.back()]; if (!cont && !key[k]) vx::fail("%s: player %d continues at frame %zu, which is no key frame", hist.c_str(), i, k); if (!got.empty() && k != got.back() + 1 && !small && !(cache && who[k] != who[got.back()])) { bool onlyinter = true; for (size_t m = got.back() + 1; m < k; m++) onlyinter &= !key[m] && who[m] != who[got.back()]; if (!onlyinter) vx::fail("%s: player %d missed frames %zu to %zu", hist.c_str(), i, got.back() + 1, k - 1); }
                    if (key[k] && (nn.size() < 4 || nn[1] != hd[(size_t) who[k]].sps || nn[2] != hd[(size_t) who[k]].pps)) vx::fail("%s: player %d: key frame %zu without its parameter sets", hist.c_str(), i, k); got.push_back(k); } }
            if (quiet && !sent.empty()) { bool due = false; for (size_t k = jn[i]; k < sent.size(); k++) due |= key[k]; if (due && got.empty()) vx::fail("%s: player %d received nothing", hist.c_str(), i); if (!small && due && got.back() + 1 != sent.size() && key[sent.size() - 1]) vx::fail("%s: player %d did not receive the last frame", hist.c_str(), i); } };
        auto frame = [&](bool k) { E e = mk(k ? 0 : 1, t); t += 40; put(*p, e); sent.push_back(e.nals[0]); key.push_back(k); who.push_back(pubs - 1); };
        auto leave = [&](int i, bool rst) { if (rst) h[i]->c->reset(); else h[i]->c->fin(); vx::pump(); if (!h[i]->c->closed) vx::fail("%s: the connection of a player that left stays open", hist.c_str()); h[i].reset(); };
        for (int s = 0; s < n; s++) {
            int k = s ? vx::choose(7) : k0; if ((!up && (k == 1 || k == 2)) || (k == 5 && !h[0]) || (k == 6 && (!h[0] || h[0]->c->win < 0))) break;
            if (k == 0) { if (up) { p->c->fin(); vx::pump(); up = false; hist += " stop"; } else { p.reset(new Client); if (!p->publisher("s", app, app == "q0" ? "1936" : app == "q1" ? "1937" : "1935")) vx::fail("%s: publish refused", hist.c_str()); up = true; pubs++; E e = mk(3, t); put(*p, e); hd.push_back(vhs.back()); for (int i = 0; i < 2; i++) multi[i] = multi[i] || h[i]; hist += " start"; } }
            else if (k == 1 || k == 2) { int m = small ? 3 : 1; hist += k == 1 ? " key" : " inter"; for (int x = 0; x < m; x++) frame(k == 1 && !x); }
            else if (k <= 4) { int i = k - 3; if (h[i]) { judge2(i, false); leave(i, s & 1); hist += " leave" + std::to_string(i); } else { h[i].reset(new Http); jn[i] = sent.size(); multi[i] = false; tsplay(*h[i], "/" + app + "/s.ts", i ? "1.1" : "1.0"); hist += " join" + std::to_string(i); } }
            else if (k == 5) { h[0]->c->win = 3; hist += " block0"; }
            else { h[0]->c->open_window(-1); h[0]->c->win = -1; vx::pump(); judge2(0, false); hist += " open0"; }
        }
        if (h[0] && h[0]->c->win >= 0) { h[0]->c->open_window(-1); h[0]->c->win = -1; vx::pump(); }
        if (up) { size_t a = sent.size(); frame(true); frame(false); frame(true); (void) a; }
        for (int i = 0; i < 2; i++) if (h[i]) { judge2(i, up); leave(i, false); } if (up) { p->c->fin(); vx::pump(); } vx::note("%s", hist.c_str()); (void) lag;
    });
}
VX_SCENARIOS(
    { "same", same_roots, same_run, "4 applications (no cache, whole cache, 500 ms cache, cache sent in part) x H.264 and HEVC x with and without AAC x every publishing history of 4 (5) events over {key frame, key frame of several NAL units, inter frame, inter frame with composition time, audio, new AVC header, new AAC header} x 2 clocks, a player joining before every event" },
    { "press", press_roots, press_run, "small and large frames, merge_frame 1 and 8, a cache, three encodings of the body: the socket blocks at 150-200 positions of the response for 0-2 further events, takes at most n bytes per write, n bytes per event, or blocks twice" },
    { "size", size_roots, size_run, "frame sizes 1-420 (1500) and around 64 KB, the ADTS limit, up to 1 MB, of key, inter, inter with composition time, AAC x input chunks of 128, 4K, 64K bytes" },
    { "malf", malf_roots, malf_run, "7 messages (headers, H.264 and HEVC frames of several NAL units, AAC, frames with start codes inside) cut at every length, and with each of the first 60 bytes replaced by 8 values, x with or without audio x input chunks of 3, 16, 64K bytes" },
    { "url", url_roots, url_run, "19 request targets x GET/HEAD/HTTP 1.0 x 4 header variants x frames before the request, with five streams of two applications live" },
    { "life", life_roots, life_run, "every sequence of 6 (7) of {publisher starts or stops, key frames, inter frames, each of two players joins or leaves, one player's socket blocks or opens} x no cache, cache, queues of 8 frames without and of 12 with a cache" }
)
