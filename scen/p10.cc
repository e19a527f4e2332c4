// P10: a relayed stream arrives at the other server unchanged; a lost or failed link is tried again at the stated times, and only while it is needed.
#include "live.h"
#include "notify.h"
struct Link { vx::Conn out, in; int plan = 0; int flights = 0; bool dead = false, ok = false; uint64_t at = 0; size_t join = 0; };
static std::vector<std::shared_ptr<Link>> links; static size_t lseen; static string hist;
// what happens to a link: -1 works; 0 refused; 1 no answer; 2+j closed after j answers of the server (j=0: at once)
static int lplan = -1; static string lwhere = "1936";
static const int LCUT = 7;
static void nlinks()
{
    nother = [](vx::Conn c) {
        auto l = std::make_shared<Link>(); l->out = c; l->plan = lplan; l->at = vx::now_ms(); links.push_back(l);
        if (lplan == 0) { vx::refuse_connect(c); l->dead = true; }
        else if (lplan != 1) { vx::accept_connect(c); l->in = vx::connect_to(lwhere, "10.7.7.7"); if (lplan == 2) { c->fin(); l->in->fin(); l->dead = true; } }
    };
}
static void bridge()
{
    for (int k = 0; k < 10000; k++) {
        nserve(); bool any = false;
        for (size_t i = 0; i < links.size(); i++) { auto l = links[i]; if (!l->in) { if (l->out->closed) l->dead = true; continue; }
            string a = l->out->take(), b = l->in->take();
            if (b.find("NetStream.Play.Start") != string::npos || b.find("NetStream.Publish.Start") != string::npos) l->ok = true;
            if (l->dead) continue;
            if (!a.empty() && !l->in->closed) { l->in->send(a); any = true; }
            if (!b.empty() && !l->out->closed) { l->out->send(b); any = true; l->flights++; if (l->plan >= 2 && l->flights >= l->plan - 2) { l->out->fin(); l->in->fin(); l->dead = true; continue; } }
            if (l->out->closed || l->in->closed) { if (!l->out->closed) l->out->fin(); if (!l->in->closed) l->in->fin(); l->dead = true; any = true; }
        }
        if (!any) return;
    }
    vx::fail("%s: the link never comes to rest", hist.c_str());
}
static void pass(uint64_t ms) { uint64_t e = vx::now_ms() + ms; bridge(); while (vx::now_ms() < e) { long n = vx::next_timer(); uint64_t d = e - vx::now_ms(); if (n >= 0 && (uint64_t) n < d) d = n ? n : 1; vx::advance(d); bridge(); } }
static void cut(Link &l) { l.out->fin(); l.in->fin(); l.dead = true; bridge(); }
static void drop(Client *&c) { if (!c) return; if (!c->c->closed) c->c->fin(); bridge(); delete c; c = nullptr; }
static Client *F, *L, *FP; static std::vector<Client *> ex;
static void dropall() { drop(pub); drop(L); drop(F); drop(FP); for (auto &x : ex) drop(x); ex.clear(); for (auto &l : links) if (l->in && !l->dead) cut(*l); for (auto &l : links) if (!l->out->closed) { l->out->reset(); } bridge(); pass(2500); nreset(); bridge(); links.clear(); lseen = 0; lplan = -1; nmode = 0; ev.clear(); hist = ""; }
static int alive() { int n = 0; for (auto &l : links) if (!l->out->closed) n++; return n; }
static int ver;
static Client *client(const char *nm, const string &app, const string &where = "1935") { Client *c = new Client; c->name = nm; if (!c->up(app, where)) vx::fail("%s: no connection", hist.c_str()); return c; }
static void frame(uint32_t t, int k = 0) { emit(k, t, ++ver % 250); bridge(); }
static uint32_t clk;
static void stuff() { static const int K[] = { 5, 3, 4, 0, 2, 1 }; for (int k : K) { emit(k, clk, ++ver % 250); bridge(); clk += 20; } }
// what the far player must have: everything published from `join` on, like a player of the origin joining then
static void same(Client &p, size_t join, size_t skip, const char *who)
{
    std::vector<Got> g = received(p, true); g.erase(g.begin(), g.begin() + std::min(skip, g.size())); auto e = model0(CF[0], join);
    bool ok = e.size() == g.size(); for (size_t i = 0; ok && i < e.size(); i++) ok = e[i].k == g[i].k && e[i].ver == g[i].ver;
    if (!ok) vx::fail("%s: %s: published %s; expected %s; received %s", hist.c_str(), who, evs(join).c_str(), gs(e).c_str(), gs(g).c_str());
    if (p.c->closed) vx::fail("%s: %s was disconnected", hist.c_str(), who);
}
enum { O_OK, O_REFUSED, O_404, O_500, O_200, O_NOLOC, O_BADLOC, O_BADPORT, O_NOANS, O_LREF, O_LNONE, O_LCUT, O_MAX = O_LCUT + LCUT };
static string oname(int o) { static const char *n[] = { "works", "notification refused", "404", "500", "200", "302 without Location", "302 to 'x'", "302 to port 99999", "notification not answered", "link refused", "link not answered" }; return o < O_LCUT ? n[o] : "link closed after " + std::to_string(o - O_LCUT) + " answers"; }
static bool timed(int o) { return o == O_NOANS || o == O_LNONE; }
static const char *LOC = "rtmp://10.9.9.9:1936/far/s2?x=y";
// one attempt: the notification is asked now; returns with the attempt decided. Time of its end is now.
static void attempt(const string &call, int o, const char *loc = LOC)
{
    size_t n0 = nreq.size(); (void) n0;
    if (vx::arg("trc", "")[0]) fprintf(stderr, "T%lu %s\n", (unsigned long) vx::now_ms(), hist.c_str());
    lplan = o == O_LREF ? 0 : o == O_LNONE ? 1 : o >= O_LCUT ? 2 + o - O_LCUT : -1;
    if (o == O_REFUSED) { nserve(); return; }
    bridge(); size_t k = nseen; while (k < nreq.size() && !(nreq[k].call == call && nreq[k].act == "start")) k++;
    if (k == nreq.size()) vx::fail("%s: no %s notification now", hist.c_str(), call.c_str());
    if (nreq[k].q["app"] != (call == "push" ? "ps" : "pl") || nreq[k].q["name"] != "s") vx::fail("%s: notification about %s/%s", hist.c_str(), nreq[k].q["app"].c_str(), nreq[k].q["name"].c_str());
    nseen = k + 1; auto c = nreq[k].c;
    switch (o) {
    case O_404: c->send(nresp(404)); break; case O_500: c->send(nresp(500)); break; case O_200: c->send(nresp(200)); break;
    case O_NOLOC: c->send(nresp(302)); break; case O_BADLOC: c->send(nresp(302, "Location: x\r\n")); break; case O_BADPORT: c->send(nresp(302, "Location: rtmp://10.9.9.9:99999/far/s2\r\n")); break;
    case O_NOANS: break;
    default: c->send(nresp(302, string("Location: ") + loc + "\r\n"));
    }
    for (size_t j = nseen; j < nreq.size(); j++) ;
    bridge();
}
static void quiet(const char *why, uint64_t ms)
{
    size_t n = links.size(), s = 0; for (auto &r : nreq) if (r.act == "start") s++;
    pass(ms); size_t s2 = 0; for (auto &r : nreq) if (r.act == "start") s2++;
    if (links.size() != n || s2 != s) vx::fail("%s: another attempt %s", hist.c_str(), why);
}
static size_t starts() { size_t s = 0; for (auto &r : nreq) if (r.act == "start") s++; return s; }
static void balance()
{
    size_t a = 0, d = 0; for (auto &r : nreq) { if (r.act == "start") a++; if (r.act == "done") d++; }
    if (a != d) vx::fail("%s: %zu starts and %zu ends notified:%s", hist.c_str(), a, d, nlist().c_str());
}
// mode: 0 push (a publisher here, a player there), 1 pull (a player here, a publisher there)
static int retry_roots() { return 2 * O_MAX * O_MAX; }
static void retry_run(int root)
{
    nserver(); nlinks(); int mode = root % 2, o0 = root / 2 % O_MAX, o1 = root / 2 / O_MAX; string call = mode ? "pull" : "push";
    vx::batch([&] {
        dropall(); hist = call + ":"; clk = 1000; bool stop = false; int n = vx::tier_pick(4, 5); uint64_t cur = 0; bool worked = false;
        if (mode) { pub = client("far publisher", "far", "1936"); pub->publish("s2"); vx::pump(); } else { F = client("far player", "far", "1936"); F->play("s2"); vx::pump(); }
        nmode = o0 == O_REFUSED ? 1 : 0;
        if (mode) { F = client("player", "pl"); F->play("s"); } else { pub = client("publisher", "ps"); pub->publish("s"); }
        vx::pump(); Client *own = mode ? F : pub; int nxt = o0; size_t from = 0, got0 = 0;
        for (int i = 0; i < n && !stop; i++) {
            int o = nxt; bool fin = o == O_404 || o == O_500 || o == O_200; nxt = i + 1 >= n - 1 || fin ? 0 : i == 0 ? o1 : vx::choose(O_MAX); bool nref = nxt == O_REFUSED; hist += " " + oname(o);
            uint64_t t0 = vx::now_ms(); (void) t0; size_t lk = links.size();
            attempt(call, o);
            bool expect_closed = o == O_404 || o == O_500;
            if (own->c->closed != expect_closed) vx::fail("%s: the %s is %s", hist.c_str(), mode ? "player" : "publisher", own->c->closed ? "disconnected" : "still connected");
            bool wl = o == O_OK || o >= O_LREF; if (links.size() - lk != (wl ? 1u : 0u)) vx::fail("%s: %zu connections to the other server, expected %d", hist.c_str(), links.size() - lk, wl);
            if (wl && links.back()->out->peer_str() != "10.9.9.9:1936") vx::fail("%s: connection to %s", hist.c_str(), links.back()->out->peer_str().c_str());
            if (expect_closed || o == O_200) { nmode = 0; quiet("although told not to", 5000); if (o == O_200) { vx::pump(); if (own->c->closed) vx::fail("%s: disconnected", hist.c_str()); } stop = true; break; }
            if (wl && o >= O_LCUT && !links.back()->dead) { links.back()->plan = -1; o = O_OK; } // it has come to work before so many answers
            bool lost = false;
            if (wl && o >= O_LCUT && links.back()->ok) { hist += " (it had worked)"; cur = 0; lost = true; if (nref) { dropall(); return; } /* repeated at once, already */ }
            if (o == O_OK) {
                Link &l = *links.back(); if (l.dead) vx::fail("%s: the link is down", hist.c_str());
                received(*F, false); if (i) from = ev.size();
                got0 = received(*F, false).size();
                size_t vbase = ev.size();
                // a new source for the far player: frames come with their headers again
                ev.erase(ev.begin(), ev.begin() + vbase); F->r.out.clear(); F->read_pos = 0; got0 = 0; from = 0;
                stuff(); std::vector<Got> g = received(*F, true); std::vector<size_t> fr, wf; for (auto &x : g) if (x.k <= 2) fr.push_back(x.idx); for (size_t j = 0; j < ev.size(); j++) if (ev[j].k <= 2) wf.push_back(j);
                if (fr != wf) vx::fail("%s: published %s; the player has %s", hist.c_str(), evs(0).c_str(), gs(g).c_str());
                invariants(CF[0], g, 0, hist.c_str());
                if (alive() != 1) vx::fail("%s: %d links", hist.c_str(), alive());
                pass(1500); if (alive() != 1 || l.dead) vx::fail("%s: the link does not stay", hist.c_str());
                stuff(); if (received(*F, true).size() < wf.size() * 2) vx::fail("%s: the second group is missing", hist.c_str());
                if (i == n - 1) { worked = true; break; }
                // cut it
                lost = true; nmode = 0; int how = vx::choose(2); hist += how ? " reset" : " lost";
                nmode = nref; if (how) { l.out->reset(); l.in->reset(); l.dead = true; } else { l.out->fin(); l.in->fin(); l.dead = true; }
                size_t s = starts(); bridge(); cur = 0; if (own->c->closed) vx::fail("%s: the %s was disconnected", hist.c_str(), mode ? "player" : "publisher");
                if (!nmode && starts() != s + 1) vx::fail("%s: not repeated at once", hist.c_str());
            }
            if (i == n - 1) break;
            if (lost) continue;
            // failed: next attempt
            nmode = nref;
            size_t s = starts();
            if (timed(o)) { pass(799); if (starts() != s) vx::fail("%s: repeated before the timeout", hist.c_str()); pass(1); if (!nmode && starts() != s + 1) vx::fail("%s: not repeated at the timeout (%zu)", hist.c_str(), starts() - s); cur = std::min<uint64_t>(cur * 2, 800); }
            else { cur = cur ? std::min<uint64_t>(cur * 2, 800) : 50; pass(cur - 1); if (starts() != s) vx::fail("%s: repeated before %d ms", hist.c_str(), (int) cur); pass(1); if (!nmode && starts() != s + 1) vx::fail("%s: not repeated after %d ms", hist.c_str(), (int) cur); }
        }
        (void) worked; (void) from; (void) got0;
        // the end: nobody needs it any more
        nmode = 0; if (!own->c->closed) { own->c->fin(); bridge(); }
        if (alive()) { pass(0); int n2 = 0; for (auto &l : links) if (!l->out->closed && l->in) n2++; if (n2) vx::fail("%s: the link stays although nobody needs it", hist.c_str()); }
        for (auto &r : nreq) if (!r.c->closed && r.act == "start") { }
        quiet("although nobody needs it", 5000);
        if (alive()) vx::fail("%s: a connection to the other server stays", hist.c_str());
        vx::observe(hist);
        dropall();
    });
    dropall();
}
// ---- the link lives as long as it is needed, and carries what is published meanwhile
// pull: players here come and go (a, b), the publisher there comes and goes (f), the link is cut (c), a group is published (g)
static int life_roots() { return 5 * 5 * 5; }
static void life_run(int root)
{
    nserver(); nlinks();
    vx::batch([&] {
        dropall(); hist = "pull:"; clk = 1000; static Client *P[2]; for (auto &x : P) drop(x); int n = vx::tier_pick(7, 8); bool far = false; static bool on[2]; on[0] = on[1] = false; uint32_t gen = 0;
        struct Seen { size_t from; }; std::vector<size_t> must[2];   // frames each player has to have
        bool quietly = false; (void) quietly; (void) gen;
        int pos = root; static const char *N[] = { "+-player 1", "+-player 2", "+-far publisher", "cut", "group" };
        for (int i = 0; i < n; i++) {
            int a; if (i < 3) { a = pos % 5; pos /= 5; } else a = vx::choose(5);
            bool any = on[0] || on[1];
            if (a == 3 && !any) return; if (a == 4 && !far) return;
            size_t s = starts();
            if (a < 2) {
                hist += on[a] ? " -player " + std::to_string(a + 1) : " +player " + std::to_string(a + 1);
                if (!on[a]) { P[a] = client(N[a] + 2, "pl"); P[a]->play("s"); on[a] = true; must[a].clear(); if (!any) attempt("pull", O_OK); else bridge(); }
                else { if (P[a]->c->closed) vx::fail("%s: it was disconnected", hist.c_str()); P[a]->c->fin(); on[a] = false; bridge(); }
            } else if (a == 2) {
                hist += far ? " -far publisher" : " +far publisher";
                if (!far) { pub = client("far publisher", "far", "1936"); pub->publish("s2"); bridge(); if (pub->c->closed) return; far = true; } else { drop(pub); bridge(); far = false; }
            } else if (a == 3) { hist += " cut"; for (auto &l : links) if (!l->dead) { cut(*l); break; } attempt("pull", O_OK); }
            else { hist += " group"; size_t b = ev.size(); stuff(); for (int k = 0; k < 2; k++) if (on[k]) for (size_t j = b; j < ev.size(); j++) if (ev[j].k <= 2) must[k].push_back(j); }
            bool want = on[0] || on[1];
            if (starts() > s + (a == 3 || (a < 2 && !any))) vx::fail("%s: another notification", hist.c_str());
            if (alive() != (want ? 1 : 0)) vx::fail("%s: %d links to the other server, expected %d", hist.c_str(), alive(), want);
            for (int k = 0; k < 2; k++) if (on[k]) {
                if (P[k]->c->closed) vx::fail("%s: player %d was disconnected", hist.c_str(), k + 1);
                std::vector<Got> g = received(*P[k], true); std::vector<size_t> fr; for (auto &x : g) if (x.k <= 2) fr.push_back(x.idx);
                if (fr != must[k]) vx::fail("%s: player %d: published %s; received %s", hist.c_str(), k + 1, evs(0).c_str(), gs(g).c_str());
                // every frame comes after the codec headers in force
                int V = -1, A = -1, hv = -1, ha = -1; size_t e = 0; for (auto &x : g) { if (x.k == 3) { V = x.ver; continue; } if (x.k == 4) { A = x.ver; continue; } if (x.k == 5) continue; for (; e <= x.idx; e++) { if (ev[e].k == 3) hv = ev[e].ver; if (ev[e].k == 4) ha = ev[e].ver; } if (x.k == 2 ? A != ha : V != hv) vx::fail("%s: player %d: frame %c%d not preceded by its codec header: received %s", hist.c_str(), k + 1, KN[x.k], x.ver, gs(g).c_str()); }
            }
        }
        for (auto &x : P) drop(x); bridge(); quiet("although nobody needs it", 3000); if (alive()) vx::fail("%s: the link stays", hist.c_str());
        vx::observe(hist); dropall();
    });
    dropall();
}
// ---- two servers pushed to: each gets the stream, whatever happens to the other
static int two_roots() { return O_MAX * O_MAX; }
static void two_run(int root)
{
    nserver(); nlinks(); int o[2] = { root % O_MAX, root / O_MAX }; if (o[0] == O_REFUSED || o[1] == O_REFUSED) return;
    vx::batch([&] {
        dropall(); hist = "push to two: " + oname(o[0]) + " and " + oname(o[1]); clk = 1000;
        static Client *R[2]; for (int i = 0; i < 2; i++) { drop(R[i]); R[i] = client("far player", "far", "1936"); R[i]->play(i ? "r1" : "r0"); vx::pump(); }
        pub = client("publisher", "p2"); pub->publish("s"); bridge();
        if (starts() != 2) vx::fail("%s: %zu notifications", hist.c_str(), starts());
        int order = vx::choose(2); std::shared_ptr<Link> lk[2]; bool kill = false;
        for (int j = 0; j < 2; j++) {
            int i = j ^ order; size_t k = 0; while (k < nreq.size() && nreq[k].q["srv"] != std::to_string(i)) k++;
            if (k == nreq.size()) vx::fail("%s: server %d was not notified", hist.c_str(), i);
            if (nreq[k].c->closed) { if (!kill) vx::fail("%s: notification abandoned", hist.c_str()); continue; }
            // answer the k-th one
            lplan = o[i] == O_LREF ? 0 : o[i] == O_LNONE ? 1 : o[i] >= O_LCUT ? 2 + o[i] - O_LCUT : -1; size_t n = links.size(); auto c = nreq[k].c; string loc = string("Location: rtmp://10.9.9.9:1936/far/r") + (i ? "1" : "0") + "\r\n";
            switch (o[i]) { case O_404: case O_500: c->send(nresp(o[i] == O_404 ? 404 : 500)); kill = true; break; case O_200: c->send(nresp(200)); break; case O_NOLOC: c->send(nresp(302)); break; case O_BADLOC: c->send(nresp(302, "Location: x\r\n")); break; case O_BADPORT: c->send(nresp(302, "Location: rtmp://h:99999/far/s\r\n")); break; case O_NOANS: break; default: c->send(nresp(302, loc)); }
            bridge(); if (links.size() > n) lk[i] = links.back();
        }
        if (kill != pub->c->closed) vx::fail("%s: publisher %s", hist.c_str(), kill ? "still connected" : "disconnected");
        lplan = -1;
        if (!kill) {
            stuff();
            for (int i = 0; i < 2; i++) if (o[i] == O_OK) { if (!lk[i] || lk[i]->out->closed) vx::fail("%s: link %d is down", hist.c_str(), i); same(*R[i], 0, 0, i ? "player of the second" : "player of the first"); }
            pub->c->fin(); bridge();
        }
        // every start gets its end, told to the same server
        size_t t = nreq.size(); (void) t; pass(5000);
        std::map<string, int> st, dn; for (auto &r : nreq) (r.act == "start" ? st : dn)[r.q["srv"]]++;
        for (auto &x : st) if (dn[x.first] != x.second) vx::fail("%s: server %s told %d starts and %d ends:%s", hist.c_str(), x.first.c_str(), x.second, dn[x.first], nlist().c_str());
        if (alive()) vx::fail("%s: a link stays", hist.c_str());
        for (auto &x : R) drop(x); dropall();
    });
    dropall();
}
// ---- HTTP-FLV pull: whatever way the bytes arrive
static string flvtag(int type, uint32_t ts, const string &d) { string o; o += (char) type; o += be(d.size(), 3) + be(ts & 0xffffff, 3) + (char) (ts >> 24) + be(0, 3) + d; return o + be(d.size() + 11, 4); }
static string flvhead() { return string("FLV\1\5\0\0\0\11", 9) + be(0, 4); }
struct Tag { int type; uint32_t ts; string data; };
static std::vector<Tag> tags(int v) { std::vector<Tag> t; Msg m = metav(3); t.push_back({ 18, 0, m.data.substr(enc(Str("@setDataFrame")).size()) }); t.push_back({ 9, 0, vh(1) }); t.push_back({ 8, 0, ah(1) }); uint32_t b = v == 1 ? 0xfffff0 : v == 2 ? 0x7ffffff0 : 0; t.push_back({ 9, b, avc_key("k1") }); t.push_back({ 8, b + 10, aac_raw("a1") }); t.push_back({ 9, b + 40, avc_inter(string(v == 3 ? 5000 : 20, 'i')) }); t.push_back({ 8, b + 50, aac_raw("a2") }); return t; }
// 0 whole, 1 every single cut, 2 byte by byte, 3 every pair of cuts (thorough), in the body; with or without chunked encoding
static int flv_roots() { return 4 * 2 * 2 * 16; }
static void flv_run(int root)
{
    nserver(); int v = root % 4, chunked = root / 4 % 2, how = root / 8 % 2, slice = root / 16; auto T = tags(v); string all = flvhead(); for (auto &t : T) all += flvtag(t.type, t.ts, t.data);
    size_t len = all.size(); if (how == 1 && slice) return; vx::Conn hc; nother = [&](vx::Conn c) { hc = c; vx::accept_connect(c); };
    size_t pair = vx::thorough() && v != 3 ? 8 : 1;
    for (size_t c1 = how ? len : 1 + slice; c1 <= len; c1 += 16) for (size_t pr = 0; pr < pair; pr++) {
        if (pr && c1 + pr > len) break;
        dropall(); hist = "HTTP-FLV, variant " + std::to_string(v) + (chunked ? " chunked" : "") + (how ? " byte by byte" : c1 == len ? " whole" : " cut at " + std::to_string(c1) + (pr ? " and " + std::to_string(c1 + pr) : "")); hc = nullptr;
        F = client("player", "pl"); F->play("s"); bridge();
        if (starts() != 1) vx::fail("%s: no notification", hist.c_str());
        nreq[0].c->send(nresp(302, "Location: http://10.9.9.9:8080/far/s2.flv?x=y\r\nDomain: other.test\r\n")); bridge();
        if (!hc) vx::fail("%s: no connection", hist.c_str()); if (hc->peer_str() != "10.9.9.9:8080") vx::fail("%s: connection to %s", hist.c_str(), hc->peer_str().c_str());
        string rq = hc->take(); if (rq.compare(0, 33, "GET /far/s2.flv?x=y HTTP/1.1\r\nHos")) vx::fail("%s: request %s", hist.c_str(), rq.c_str()); if (rq.find("Host: other.test\r\n") == string::npos) vx::fail("%s: Host is missing: %s", hist.c_str(), rq.c_str());
        hc->send(string("HTTP/1.1 200 OK\r\n") + (chunked ? "Transfer-Encoding: chunked\r\n\r\n" : "\r\n"));
        auto put = [&](const string &b) { if (b.empty()) return; char h[16]; snprintf(h, sizeof h, "%zx\r\n", b.size()); hc->send(chunked ? h + b + "\r\n" : b); bridge(); };
        if (how) for (char ch : all) put(string(1, ch)); else { put(all.substr(0, c1)); put(all.substr(c1, pr)); put(all.substr(std::min(len, c1 + pr))); }
        F->collect(); if (F->c->closed || hc->closed) vx::fail("%s: closed", hist.c_str());
        std::vector<Tag> g; for (auto &m : F->r.out) if (m.type == 8 || m.type == 9 || (m.type == 18 && m.data.find("width") != string::npos)) g.push_back({ (int) m.type, m.ts, m.data });
        bool ok = g.size() == T.size(); std::vector<bool> used(g.size()); for (size_t i = 0, j = 0; ok && i < T.size(); i++) { if (T[i].type == 18) { bool f = false; for (auto &x : g) if (x.type == 18) f = true; ok = f; continue; } bool hdr = i == 1 || i == 2; bool f = false; for (size_t q = hdr ? 0 : j; q < g.size(); q++) if (!used[q] && g[q].type == T[i].type && g[q].data == T[i].data && (hdr || g[q].ts == T[i].ts)) { used[q] = true; f = true; if (!hdr) j = q + 1; break; } ok = f; }
        if (!ok) { string o; for (auto &x : g) o += " " + std::to_string(x.type) + "@" + std::to_string(x.ts) + "/" + std::to_string(x.data.size()); vx::fail("%s: %zu tags sent, the player received%s", hist.c_str(), T.size(), o.c_str()); }
        vx::count(1, len, 1);
        // the last player leaves: the pull ends
        drop(F); bridge(); if (!hc->closed) vx::fail("%s: the connection stays although nobody plays", hist.c_str());
        nother = nullptr; dropall(); nother = [&](vx::Conn c) { hc = c; vx::accept_connect(c); };
    }
    nother = nullptr; dropall();
}
// ---- HTTP-FLV pull: answers that are no stream, and streams that break
static const int FE = 16;
static int flverr_roots() { return FE * 3; }
static void flverr_run(int root)
{
    nserver(); int k = root % FE, ch = root / FE; vx::Conn hc; nother = [&](vx::Conn c) { hc = c; if (k == 0) vx::refuse_connect(c); else vx::accept_connect(c); };
    auto T = tags(0); string g0 = flvhead(), tail; for (auto &t : T) g0 += flvtag(t.type, t.ts, t.data); T.erase(T.begin(), T.begin() + 3); for (auto &t : T) tail += flvtag(t.type, t.ts + 1000, t.data);
    string body; bool good = false;
    switch (k) { case 1: case 2: case 3: case 4: case 5: case 6: break; case 7: body = "XLV" + g0.substr(3); break; case 8: body = g0; body[3] = 2; break; case 9: body = g0 + flvtag(5, 10, "abc") + tail; break; case 10: body = g0 + tail; body[9 + 3] = 1; break;
    case 11: body = g0; body[body.size() - 1] ^= 1; body += tail; break; case 12: body = g0 + flvtag(8, 100, "") + tail; good = true; break; case 13: body = g0 + flvtag(9, 100, "") + tail; good = true; break; case 14: body = g0 + flvtag(18, 100, "") + tail; break; case 15: body = g0 + string("\x09\xff\xff\xff\0\0\0\0\0\0\0", 11) + string(200000, 'x'); break; }
    dropall(); hist = "HTTP-FLV pull, answer " + std::to_string(k); F = client("player", "pl"); F->play("s"); bridge();
    nreq[0].c->send(nresp(302, "Location: http://10.9.9.9:8080/far/s2.flv\r\n")); bridge(); if (!hc) vx::fail("%s: no connection", hist.c_str());
    vx::Conn c = hc; auto put = [&](const string &b) { if (ch == 1) { for (char x : b.substr(0, 4000)) { if (c->closed) return; c->send(string(1, x)); if (b.size() < 4000) bridge(); } bridge(); } else { c->send(b); bridge(); } };
    string ok = "HTTP/1.1 200 OK\r\n\r\n";
    switch (k) { case 0: break; case 1: put(nresp(404)); break; case 2: put(nresp(403, "", "no")); break; case 3: put(nresp(500)); break; case 4: put(nresp(302, "Location: http://10.9.9.9/z\r\n")); break; case 5: put("garbage\r\n\r\n"); break; case 6: put("HTTP/1.1 200 OK\r\nX-"); break; default: put(ok); put(body); }
    if (ch == 2 && !c->closed) { c->fin(); bridge(); }
    size_t n = 0; F->collect(); for (auto &m : F->r.out) if (m.type == 8 || m.type == 9) n++;
    if (good && n < 6 + T.size()) vx::fail("%s: %zu frames arrive of %zu", hist.c_str(), n, 6 + T.size());
    if (good && ch != 2 && (c->closed || F->c->closed)) vx::fail("%s: closed because of an empty tag", hist.c_str());
    if (k >= 7 && !good && k < 14 && !c->closed) vx::fail("%s: an invalid stream is not abandoned", hist.c_str());
    if (k >= 6 && F->c->closed) vx::fail("%s: the player is disconnected because the source broke", hist.c_str());
    if (k >= 1 && k <= 3 && !F->c->closed) vx::fail("%s: the player waits for a stream refused with an error", hist.c_str());
    if (F->c->closed) { quiet("although nobody needs it", 5000); } else { size_t s = starts(); pass(900); if (k != 4 && k != 12 && k != 13 && k != 14 && k != 15 && starts() == s && nreq.size() < 3) vx::fail("%s: not repeated", hist.c_str()); }
    drop(F); bridge(); pass(10); if (!c->closed) vx::fail("%s: the connection stays although nobody plays", hist.c_str()); quiet("although nobody needs it", 5000);
    nother = nullptr; dropall();
}
VX_SCENARIOS(
    { "flverr", flverr_roots, flverr_run, "HTTP-FLV pull: 16 answers (refused, 404, 403, 500, 302, garbage, cut header, wrong signature, version, tag type, tag sizes, empty tags, an endless tag) x at once, byte by byte, then closed" },
    { "life", life_roots, life_run, "pull: every sequence of 7 (8) of: player 1 comes or leaves, player 2, the far publisher, the link is cut, a group of frames" },
    { "two", two_roots, two_run, "push to two servers x outcome of each (17 of 18) x which is answered first" },
    { "flv", flv_roots, flv_run, "HTTP-FLV pull: 4 streams (small, extended timestamps, timestamps beyond 2^31, a frame longer than a buffer) x plain or chunked x whole, byte by byte, cut at every byte (thorough: and again within 8 bytes)" },
    { "retry", retry_roots, retry_run, "push or pull x every sequence of 2 (3) attempts' outcomes, of 18, and then a working one" })
