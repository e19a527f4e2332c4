// P05: who may publish a stream, and whose frames players get, over every history of publishers and players.
#include "rtmp.h"
using namespace rt;
struct Conf { bool gop, notify, wvideo, idle; };
static const Conf CF[] = { { false, false, false, true }, { true, false, false, true }, { false, false, false, false }, { false, true, true, true }, { true, false, false, false } };
struct Frame { int pub, k, seq; string data; uint32_t ts; };   // k: 0 K, 1 I, 2 A, 3 VH, 4 AH, 5 meta
static const char KN[] = "KIAVHM";
struct Pub { Client *c = nullptr; bool on = false, acc = false; int pri = 0; int bursts = 0, inst = -1; uint32_t ts = 0; };
struct Want { int inst, k, seq; };
struct Src { int V = -1, A = -1, M = -1; };          // captured headers of one publisher instance
struct Pl { Client *c = nullptr; bool on = false; bool act[2] = { false, false }; int meta = -1; std::vector<Want> want, got; size_t seen = 0;
            bool begun = false; int lastv = -1, lasta = -1, V = -1, A = -1; int src = -1; std::map<int, int> last; };
static Pub P[3]; static Pl L[2]; static std::vector<Frame> fr; static std::vector<Src> src; static int ci, ninst, seq; static bool live;
static std::vector<int> chain;   // video frames: previous video frame of the same publisher
static int top() { int t = -1; for (int i = 0; i < 3; i++) if (P[i].on && P[i].acc && (t < 0 || P[i].pri > P[t].pri)) t = i; return t; }
static string hist;
static string ws(const std::vector<Want> &g) { string s; for (auto &x : g) { s += (char) ('a' + x.inst); s += KN[x.k]; s += std::to_string(x.seq) + " "; } return s; }
static void dropc(Client *&c) { if (!c) return; if (!c->c->closed) c->c->fin(); vx::pump(); delete c; c = nullptr; }
static bool saw(Client &c, const char *code) { return c.saw_code(code); }
static void reset_players() { for (auto &l : L) if (l.on) l.act[0] = l.act[1] = false; }

// everything a player received since last time; `t` = instance that may be its source now (-1: none)
static void collect(int t, const char *what)
{
    for (auto &l : L) {
        if (!l.c) continue;
        l.c->collect();
        for (; l.seen < l.c->r.out.size(); l.seen++) {
            const Msg &m = l.c->r.out[l.seen];
            if (m.type == 4 && m.data.size() >= 6 && rbe(m.data, 0, 2) <= 1) {
                bool b = rbe(m.data, 0, 2) == 0;
                if (b == l.begun) vx::fail("%s: stream %s twice in a row", hist.c_str(), b ? "begin" : "end");
                l.begun = b; continue;
            }
            if (m.type == 18) { std::vector<Val> v; if (!dec_all(m.data, v)) vx::fail("undecodable metadata");
                for (auto &x : v) if (auto *w = x.get("width")) { int i = (int) w->num; if (i != t) vx::fail("%s: at %s the player got the metadata of publisher %c, the source is %c", hist.c_str(), what, 'a' + i, t < 0 ? '-' : 'a' + t); l.got.push_back({ i, 5, 0 }); } continue; }
            if ((m.type != 8 && m.type != 9) || m.data.empty()) continue;
            int f = -1; for (size_t i = 0; i < fr.size(); i++) if (fr[i].data == m.data) f = (int) i;
            if (f < 0) vx::fail("%s: unknown frame %s", hist.c_str(), mstr(m).c_str());
            if (fr[f].pub != t) vx::fail("%s: at %s the player got a frame of publisher %c, the source is %c", hist.c_str(), what, 'a' + fr[f].pub, t < 0 ? '-' : 'a' + t);
            if (fr[f].k <= 2 && m.ts != fr[f].ts) vx::fail("%s: timestamp %u, published %u", hist.c_str(), m.ts, fr[f].ts);
            if (!l.begun) vx::fail("%s: frame while the stream is not begun for the player", hist.c_str());
            l.got.push_back({ fr[f].pub, fr[f].k, fr[f].seq });
            if (!CF[ci].gop) continue;
            // with a cache: headers first, in order, once, and inter frames after their predecessor
            if (l.src != t) { l.src = t; l.lastv = l.V = l.A = -1; l.last.clear(); }
            string ctx = hist + " player got " + ws(l.got);
            if (fr[f].k == 3) { l.V = f; continue; } if (fr[f].k == 4) { l.A = f; continue; }
            if (fr[f].k == 2) { if (l.A < 0) vx::fail("%s: audio before its header", ctx.c_str()); }
            else {
                if (l.V < 0) vx::fail("%s: video before its header", ctx.c_str());
                if (fr[f].k == 1 && l.lastv != chain[f]) vx::fail("%s: inter frame without the frame before it", ctx.c_str());
                l.lastv = f;
            }
            auto it = l.last.find(t); if (it != l.last.end() && f <= it->second) vx::fail("%s: repeated or out of order", ctx.c_str());
            l.last[t] = f;
        }
    }
}
static void emit(int pi, int k)
{
    Pub &p = P[pi]; Frame f{ p.inst, k, seq++, "", p.ts }; string id = std::to_string(f.seq);
    int prev = -1; for (size_t i = 0; i < fr.size(); i++) if (fr[i].pub == p.inst && fr[i].k <= 1) prev = (int) i;
    switch (k) { case 0: f.data = avc_key("k" + id); break; case 1: f.data = avc_inter("i" + id); break; case 2: f.data = aac_raw("a" + id); break; case 3: f.data = avc_seq() + id; break; case 4: f.data = aac_seq() + id; break; }
    fr.push_back(f); chain.push_back(prev);
    if (k == 5) { Msg m; m.type = 18; m.sid = 1; m.data = enc(Str("@setDataFrame")) + enc(Str("onMetaData")) + enc(Obj({ { "width", N(p.inst) }, { "height", N(360) } })); p.c->send(m, 5); }
    else if (k == 2 || k == 4) p.c->send(audio(p.ts, f.data), 4); else p.c->send(video(p.ts, f.data), 6);
    vx::pump();
    if (k <= 2) p.ts += 20;
    int t = top();
    // reference model
    if (p.acc) {
        Src &s = src[p.inst];
        if (k == 3) s.V = f.seq; if (k == 4) s.A = f.seq; if (k == 5) s.M = f.seq;
        if (k != 5) live = true;
        if (t == pi && k != 5)
            for (auto &l : L) {
                if (!l.on) continue;
                if (s.M >= 0 && l.meta != s.M) { l.want.push_back({ p.inst, 5, 0 }); l.meta = s.M; }
                bool vid = k != 2 && k != 4; int cs = vid ? 0 : 1;
                if (!l.act[cs]) {
                    if (k >= 3) continue;
                    if (CF[ci].wvideo && !vid && !l.act[0]) continue;
                    if (vid && k != 0) continue;
                    int h = vid ? s.V : s.A; if (h >= 0) l.want.push_back({ p.inst, vid ? 3 : 4, h });
                    l.act[cs] = true;
                }
                l.want.push_back({ p.inst, k, f.seq });
            }
    }
    collect(t < 0 ? -1 : P[t].inst, "a frame");
}
static void check_players()
{
    for (int i = 0; i < 2; i++) {
        Pl &l = L[i]; if (!l.c) continue;
        if (l.on && l.c->c->closed) vx::fail("%s: player %d was disconnected", hist.c_str(), i);
        if (!l.on && !l.c->c->closed) vx::fail("%s: player %d still connected without a publisher", hist.c_str(), i);
        if (CF[ci].gop || !l.on) continue;
        bool same = l.want.size() == l.got.size(); for (size_t j = 0; same && j < l.want.size(); j++) same = l.want[j].inst == l.got[j].inst && l.want[j].k == l.got[j].k && l.want[j].seq == l.got[j].seq;
        if (!same) vx::fail("%s: player %d expected %s; got %s", hist.c_str(), i, ws(l.want).c_str(), ws(l.got).c_str());
    }
}
static void publish(int i)
{
    Pub &p = P[i]; dropc(p.c); p.c = new Client; p.c->name = string("publisher ") + (char) ('0' + i); p.inst = ninst++; p.bursts = 0; p.ts = 1000 * (uint32_t) p.inst; p.pri = i == 2 ? 5 : 0; src.push_back(Src());
    bool taken = false; for (auto &q : P) if (&q != &p && q.on && q.acc && q.pri == p.pri) taken = true;
    int t0 = top();
    if (!p.c->up("a" + std::to_string(ci))) vx::fail("%s: connect refused", hist.c_str());
    p.c->publish(i == 2 ? "s?pubpri=5" : "s"); vx::pump();
    bool ok = saw(*p.c, "NetStream.Publish.Start"), bad = saw(*p.c, "NetStream.Publish.BadName");
    if (ok == taken || bad != taken) vx::fail("%s: publisher with priority %d was %s%s while the name was %s", hist.c_str(), p.pri, ok ? "accepted" : "not accepted", bad ? " (BadName)" : "", taken ? "taken" : "free");
    p.on = true; p.acc = !taken;
    int t = top(); if (t != t0 && t0 >= 0) reset_players();
    collect(t < 0 ? -1 : P[t].inst, "publish");
}
static void leave(int i, int mode)
{
    Pub &p = P[i]; int t0 = top();
    if (mode == 0) p.c->cmd("deleteStream", { Null(), N(1) }); else if (mode == 1) p.c->c->fin(); else p.c->c->reset();
    vx::pump(); p.on = false; int t = top();
    bool any = t >= 0;
    if (!any) live = false;
    if (p.acc && t0 == i) reset_players();
    if (!any && !CF[ci].idle && p.acc) for (auto &l : L) l.on = false;
    collect(-2, "leave");
    if (p.acc && !any) for (auto &l : L) if (l.on && l.begun) vx::fail("%s: no end of stream for the player", hist.c_str());
}
static void join(int i)
{
    Pl &l = L[i]; l = Pl(); l.c = new Client; l.c->name = "player";
    bool any = false; for (auto &q : P) if (q.on) any = true;   // a refused publisher counts as one that is connected
    bool acc = top() >= 0;
    if (!l.c->up("a" + std::to_string(ci))) vx::fail("%s: player refused", hist.c_str());
    l.c->play("s"); vx::pump();
    bool nf = saw(*l.c, "NetStream.Play.StreamNotFound");
    if (!CF[ci].idle && !any) { if (!l.c->c->closed || saw(*l.c, "NetStream.Play.Start")) vx::fail("%s: player accepted without a publisher", hist.c_str()); l.on = false; }
    else if (!CF[ci].idle && !acc) l.on = !l.c->c->closed;
    else { if (nf) vx::fail("%s: StreamNotFound", hist.c_str()); l.on = true; }
    int t = top(); collect(t < 0 ? -1 : P[t].inst, "join");
}
static void burst(int i)
{
    Pub &p = P[i];
    if (p.bursts++ == 0) { emit(i, 5); emit(i, 3); emit(i, 4); emit(i, 0); emit(i, 1); emit(i, 2); }
    else { emit(i, 1); emit(i, 2); emit(i, 0); }
}
static int roots() { return 5 * 3 * 4; }
static void run(int root)
{
    ci = root % 5; int mode = root / 5 % 3, first = root / 15;
    vx::batch([&] {
        for (auto &p : P) { dropc(p.c); p = Pub(); } for (auto &l : L) { dropc(l.c); l = Pl(); }
        fr.clear(); src.clear(); chain.clear(); ninst = seq = 0; live = false; hist = "app a" + std::to_string(ci) + ":";
        int n = vx::tier_pick(7, 8), joins = 0;
        for (int s = 0; s < n; s++) {
            std::vector<int> ops; // 0-2 publish, 3-5 leave, 6-8 burst, 9 join
            for (int i = 0; i < 3; i++) if (!P[i].on) ops.push_back(i); 
            for (int i = 0; i < 3; i++) if (P[i].on) ops.push_back(3 + i);
            for (int i = 0; i < 3; i++) if (P[i].on) ops.push_back(6 + i);
            if (joins < 2) ops.push_back(9);
            // publishers 0 and 1 are interchangeable until one of them has been used
            if (s == 0) ops = { 0, 2, 9 };
            int op = s == 0 ? (first < 3 ? ops[first] : (vx::prune(), 0)) : ops[vx::choose((int) ops.size())];
            static const char *nm[] = { "A+", "B+", "C+", "A-", "B-", "C-", "A*", "B*", "C*", "play" };
            hist += string(" ") + nm[op];
            if (op < 3) publish(op); else if (op < 6) leave(op - 3, mode); else if (op < 9) burst(op - 6); else join(joins++);
            check_players();
        }
        hist += " (final frames)";
        for (int i = 0; i < 3; i++) if (P[i].on) { burst(i); burst(i); check_players(); }
        int t = top();
        if (CF[ci].gop && t >= 0) for (auto &l : L) if (l.on) {
            size_t g0 = l.got.size(); burst(t);
            if (l.got.size() < g0 + 3) vx::fail("%s: the player does not get the frames of the publisher: got %s", hist.c_str(), ws(l.got).c_str());
        }
        vx::note("%s", hist.c_str());
        for (auto &l : L) vx::observe(ws(l.got) + (l.on ? "+" : "-"));
    });
}
VX_SCENARIOS({ "hist", roots, run, "5 applications (no cache; cache; idle_streams off; publish_notify with play_restart and wait_video; low latency cache with idle_streams off) x 3 ways of leaving (deleteStream, FIN, reset): every history of 7 (8) steps over publish/leave/burst of frames of two publishers of the same priority and one of a higher one, and players joining" })
