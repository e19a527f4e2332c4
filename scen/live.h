// A live stream of identifiable frames, and what a player of it must get.
#pragma once
#include "rtmp.h"
using namespace rt;
struct Ev { int k; uint32_t ts; int ver; string data; };   // k: 0 K, 1 I, 2 A, 3 VH, 4 AH, 5 meta
static string vh(int v) { return avc_seq() + string(1, (char) v); }
static string ah(int v) { return aac_seq() + string(1, (char) v); }
static Msg metav(int v) { Msg m; m.type = 18; m.ts = 0; m.sid = 1; m.data = enc(Str("@setDataFrame")) + enc(Str("onMetaData")) + enc(Obj({ { "width", N(v) }, { "height", N(360) }, { "videocodecid", N(7) } })); return m; }
struct Conf { bool gop, wkey, wvideo, il, all, ll; uint32_t cache; };
static const Conf CF[] = {
    { false, false, false, false, false, false, 0 }, { false, true, false, false, false, false, 0 }, { false, true, true, false, false, false, 0 }, { false, true, false, true, false, false, 0 },
    { true, true, false, false, true, false, 10000 }, { true, true, false, false, false, false, 10000 }, { true, true, false, false, false, false, 100 }, { true, true, false, false, false, true, 100 } };
struct Got { int k; int ver; size_t idx; uint32_t ts; };   // idx: index of the event
static std::vector<Ev> ev; static Client *pub;
static Client *trc[2];
static void emit(int k, uint32_t ts, int ver)
{
    Ev e{ k, ts, ver, "" };
    switch (k) { case 0: e.data = avc_key("k" + std::to_string(ver)); break; case 1: e.data = avc_inter("i" + std::to_string(ver)); break; case 2: e.data = aac_raw("a" + std::to_string(ver)); break;
    case 3: e.data = vh(ver); break; case 4: e.data = ah(ver); break; }
    ev.push_back(e);
    if (k == 5) pub->send(metav(ver), 5); else if (k == 2 || k == 4) pub->send(audio(ts, e.data), 4); else pub->send(video(ts, e.data), 6);
    vx::pump();
    if (vx::arg("trc", "")[0]) for (int i = 0; i < 2; i++) if (trc[i]) { trc[i]->collect(); string o; for (auto &m : trc[i]->r.out) if (m.type == 9) o += " " + (m.data.size() > 20 ? string("V") : m.data.substr(10)) + "@" + std::to_string(m.ts); vx::note("  after %c%d player%d has%s", "KIAVHM"[k], ver, i + 1, o.c_str()); }
}
static std::vector<Got> received_msgs(const std::vector<Msg> &msgs, bool checkts)
{
    std::vector<Got> g;
    for (auto &m : msgs) {
        if (m.type == 18) { std::vector<Val> v; if (!dec_all(m.data, v)) vx::fail("undecodable metadata"); for (auto &x : v) if (auto *w = x.get("width")) g.push_back({ 5, (int) w->num, 0, 0 }); continue; }
        if (m.type != 8 && m.type != 9) continue;
        if (m.data.empty()) continue; // placeholder for missing audio
        bool ok = false;
        for (size_t i = 0; i < ev.size() && !ok; i++) if (ev[i].data == m.data && (m.type == 8) == (ev[i].k == 2 || ev[i].k == 4)) { ok = true; g.push_back({ ev[i].k, ev[i].ver, i, m.ts });
            if (checkts && ev[i].k <= 2 && m.ts != ev[i].ts) vx::fail("%s has timestamp %u, published with %u", mstr(m).c_str(), m.ts, ev[i].ts); }
        if (!ok) vx::fail("the player received something never published: %s", mstr(m).c_str());
    }
    return g;
}
static std::vector<Got> received(Client &p, bool checkts) { p.collect(); return received_msgs(p.r.out, checkts); }
static const char KN[] = "KIAVHM";
static string evs(size_t joins) { string s; for (size_t i = 0; i < ev.size(); i++) { if (i == joins) s += "| "; s += KN[ev[i].k]; s += std::to_string(ev[i].ver) + "@" + std::to_string(ev[i].ts) + " "; } if (joins >= ev.size()) s += "|"; return s; }
static string gs(const std::vector<Got> &g) { string s; for (auto &x : g) { s += KN[x.k]; s += std::to_string(x.ver) + " "; } return s; }

// exact expectation without a cache
static std::vector<Got> model0(const Conf &c, size_t join)
{
    std::vector<Got> e; bool act[2] = { false, false }; int V = -1, A = -1, M = -1, pm = -1; size_t iv = 0, ia = 0;
    for (size_t i = 0; i < ev.size(); i++) {
        const Ev &x = ev[i];
        if (x.k == 5) { M = x.ver; continue; }
        if (x.k == 3) { V = x.ver; iv = i; } if (x.k == 4) { A = x.ver; ia = i; }
        if (i < join) continue;
        if (M >= 0 && pm != M) { e.push_back({ 5, M, 0, 0 }); pm = M; }
        bool vid = x.k == 0 || x.k == 1 || x.k == 3; int cs = c.il || vid ? 0 : 1;
        if (!act[cs]) {
            if (x.k >= 3) continue;
            if (c.wvideo && !vid && !act[0]) continue;
            if (c.wkey && x.k != 0 && (c.il || vid)) continue;
            auto h = [&](bool v) { if (v ? V >= 0 : A >= 0) e.push_back({ v ? 3 : 4, v ? V : A, v ? iv : ia, 0 }); };
            h(vid); if (c.il) h(!vid);
            act[cs] = true;
        }
        e.push_back({ x.k, x.ver, i, x.ts });
    }
    return e;
}
static void invariants(const Conf &c, const std::vector<Got> &g, size_t join, const char *who)
{
    string ctx = string(who) + ": published " + evs(join) + "; received " + gs(g);
    long last = -1, lastv = -1; int V = -1, A = -1, M = -1;
    std::vector<long> pv(ev.size(), -1); long p = -1; int LV = -1, LA = -1; std::vector<int> cv(ev.size()), ca(ev.size());
    for (size_t i = 0; i < ev.size(); i++) { if (ev[i].k == 3) LV = ev[i].ver; if (ev[i].k == 4) LA = ev[i].ver; cv[i] = LV; ca[i] = LA; if (ev[i].k <= 1) { pv[i] = p; p = (long) i; } }
    for (auto &x : g) {
        if (x.k == 5) { if (x.ver <= M) vx::fail("metadata repeated or out of order: %s", ctx.c_str()); M = x.ver; continue; }
        if (x.k == 3) { V = x.ver; continue; } if (x.k == 4) { A = x.ver; continue; }
        if ((long) x.idx <= last) vx::fail("frame %c%d repeated or out of order: %s", KN[x.k], x.ver, ctx.c_str());
        last = (long) x.idx;
        if (x.k == 2 && ca[x.idx] != A) vx::fail("audio frame A%d not preceded by its codec header: %s", x.ver, ctx.c_str());
        if (x.k != 2 && cv[x.idx] != V) vx::fail("video frame %c%d not preceded by its codec header: %s", KN[x.k], x.ver, ctx.c_str());
        if (x.k == 1 && pv[x.idx] != lastv && (c.wkey || lastv >= 0)) vx::fail("inter frame I%d without the frame before it: %s", x.ver, ctx.c_str());
        if (x.k <= 1) lastv = (long) x.idx;
    }
}
static void judge_got(int ci, const std::vector<Got> &g, size_t join, const char *who);
static void judge(int ci, Client &p, size_t join, const char *who)
{
    if (p.c->closed) vx::fail("%s was disconnected: %s", who, evs(join).c_str());
    judge_got(ci, received(p, true), join, who);
}
static void judge_got(int ci, const std::vector<Got> &g, size_t join, const char *who)
{
    const Conf &c = CF[ci];
    vx::observe(gs(g));
    if (!c.gop) {
        auto e = model0(c, join);
        bool same = e.size() == g.size(); for (size_t i = 0; same && i < e.size(); i++) same = e[i].k == g[i].k && e[i].ver == g[i].ver;
        if (!same) vx::fail("%s: published %s; expected %s; received %s", who, evs(join).c_str(), gs(e).c_str(), gs(g).c_str());
        return;
    }
    invariants(c, g, join, who);
    // metadata published before the join must have come with the first frame
    bool anyf = false; for (auto &x : g) if (x.k <= 2) anyf = true;
    int M = -1; for (size_t i = 0; i < ev.size() && i < join; i++) if (ev[i].k == 5) M = ev[i].ver;
    if (anyf && M >= 0) { bool ok = false; for (auto &x : g) { if (x.k == 5 && x.ver >= M) ok = true; if (x.k <= 2) break; } if (!ok) vx::fail("%s: frames before the metadata: published %s; received %s", who, evs(join).c_str(), gs(g).c_str()); }
    // everything from the start of the cached group on arrives once enough frames have followed
    size_t after = 0; bool kb = false; for (size_t i = 0; i < ev.size(); i++) { if (ev[i].k == 5) continue; if (i >= join) after++; }
    std::vector<size_t> want; bool key = false; size_t start = 0;
    for (size_t i = 0; i < ev.size(); i++) if (ev[i].k == 0) { if (!key) start = i; key = true; }
    (void) kb;
    if (c.all && after >= 2) { // nothing has been trimmed: the whole history from the first key frame (or audio before it)
        for (size_t i = 0; i < ev.size(); i++) { if (ev[i].k == 1 && (!key || i < start)) continue; if (ev[i].k <= 2) want.push_back(i); }
        std::vector<size_t> have; for (auto &x : g) if (x.k <= 2) have.push_back(x.idx);
        if (have != want) vx::fail("%s: %zu of %zu cached frames delivered: published %s; received %s", who, have.size(), want.size(), evs(join).c_str(), gs(g).c_str());
    }
}
