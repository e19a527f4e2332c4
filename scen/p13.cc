// P13: who may publish and play, and how many connections there may be.
#include "http.h"
#include "rtmp.h"
#include "notify.h"
#include <memory>
using namespace rt;
static const char *ADDR[] = { "all", "10.0.0.1", "10.0.0.0/24", "2001:db8::1", "2001:db8::/33" }; // tools/gen_p13.py has the same table
// who connects: address, listener family, what each of ADDR says about it
struct Who { const char *ip; bool six; bool in[5]; };
static const Who WHO[] = { { "10.0.0.1", false, { 1, 1, 1, 0, 0 } }, { "10.0.0.200", false, { 1, 0, 1, 0, 0 } }, { "10.0.1.1", false, { 1, 0, 0, 0, 0 } }, { "2001:db8::1", true, { 1, 0, 0, 1, 1 } }, { "2001:db8:0:1::1", true, { 1, 0, 0, 0, 1 } }, { "2001:db8:8000::1", true, { 1, 0, 0, 0, 0 } }, { "2001:db8::1:0:0:0", true, { 1, 0, 0, 0, 1 } }, { "::ffff:10.0.0.1", true, { 1, 1, 1, 0, 0 } }, { "::ffff:10.0.0.7", true, { 1, 0, 1, 0, 0 } } };
enum { PUB = 1, PLAY = 2 };
// what an atom says: -1 nothing, 0 deny, 1 allow
static int atom(int i, const Who &w, int what) { int v = i % 2, f = i / 2 % 3, a = i / 6; if (f && f != what) return -1; if (!w.in[a]) return -1; return !v; }
static int srvrule(const Who &w, int what) { if (what == PUB && w.in[2]) return 0; if (w.in[3]) return 1; if (what == PLAY) return 0; return -1; }
static bool may(const std::vector<int> &r, bool srv, const Who &w, int what) { for (int i : r) { int x = atom(i, w, what); if (x >= 0) return x; } if (srv) { int x = srvrule(w, what); if (x >= 0) return x; } return true; }
static int rules_roots() { return 31 + 31; }
static void rules_run(int root)
{
    bool srv = root >= 31; int i = root % 31 - 1; string port = srv ? "1936" : "1935", hport = srv ? "81" : "80"; Client fr;
    for (int j = -1; j < (srv || i < 0 ? 0 : 30); j++) {
        std::vector<int> r; string app = "x"; if (i >= 0) { app += "_" + std::to_string(i); r.push_back(i); } if (j >= 0) { app += "_" + std::to_string(j); r.push_back(j); }
        // somebody who is always allowed publishes, over the listener of his family
        int pw = -1; for (int k = 0; k < 9; k++) if (may(r, srv, WHO[k], PUB)) { pw = k; break; }
        Client pb; auto at = [&](const Who &w, const string &p) { return w.six ? "[::]:" + p : "0.0.0.0:" + p; };
        if (pw >= 0) { if (!pb.publisher("s", app, at(WHO[pw], port), WHO[pw].ip)) vx::fail("application %s: %s may not publish", app.c_str(), WHO[pw].ip); }
        uint32_t ts = 0; if (pw >= 0) { pb.send(video(0, avc_seq()), 6); vx::pump(); }
        std::vector<std::pair<std::unique_ptr<Client>, const Who *>> rp; std::vector<std::tuple<std::unique_ptr<Http>, const Who *, bool>> hp;
        for (auto &w : WHO) {
            bool mp = may(r, srv, w, PUB), my = may(r, srv, w, PLAY); string c = "application " + app + (srv ? " of the server with rules" : "") + ", " + w.ip;
            Client k; k.name = "publisher"; if (!k.up(app, at(w, port), w.ip)) vx::fail("%s: connect refused", c.c_str()); k.publish("n"); vx::pump(); bool ok = k.saw_code("NetStream.Publish.Start"); if (ok != mp) vx::fail("%s: publishing is %s", c.c_str(), ok ? "accepted" : "refused");
            if (!mp) { if (!k.c->closed) k.send(video(0, avc_key("denied")), 6); vx::pump(); } k.c->fin(); vx::pump();
            if (pw >= 0 && !mp) { Client d; d.up(app, at(w, port), w.ip); d.publish("s"); vx::pump(); if (d.saw_code("NetStream.Publish.Start")) vx::fail("%s: publishing is accepted", c.c_str()); if (!d.c->closed) { d.send(video(0, avc_key("denied")), 6); vx::pump(); d.c->fin(); vx::pump(); } if (pb.c->closed) vx::fail("%s: the publisher was disconnected", c.c_str()); }
            rp.emplace_back(new Client, &w); auto &q = *rp.back().first; q.name = "player"; q.up(app, at(w, port), w.ip); q.play("s"); vx::pump();
            for (int t = 0; t < 2; t++) { hp.emplace_back(new Http, &w, t); auto &h = *std::get<0>(hp.back()); h.name = "HTTP player"; h.open(at(w, hport), w.ip); h.c->send(Http::req(string(t ? "/t/" : "/f/") + "s" + (t ? ".ts" : ".flv") + "?app=" + app)); vx::pump(); }
            (void) my;
        }
        if (pw >= 0) { pb.send(video(ts + 40, avc_key("K")), 6); vx::pump(); pb.send(video(ts + 80, avc_key("L")), 6); vx::pump(); pb.send(video(ts + 1200, avc_key("M")), 6); vx::pump(); }
        for (auto &q : rp) { bool my = may(r, srv, *q.second, PLAY), ok = q.first->saw_code("NetStream.Play.Start"); size_t n = q.first->av().size(); string c = "application " + app + (srv ? " of the server with rules" : "") + ", " + q.second->ip; if (my && (!ok || (pw >= 0 && n < 4))) vx::fail("%s: playing is refused (%zu frames)", c.c_str(), n); if (!my && (ok || n || !q.first->c->closed)) vx::fail("%s: playing is accepted (%zu frames)", c.c_str(), n); if (!q.first->c->closed) q.first->c->fin(); }
        for (auto &q : hp) { Http &h = *std::get<0>(q); h.check(); bool my = may(r, srv, *std::get<1>(q), PLAY); string c = "application " + app + (srv ? " of the server with rules" : "") + ", " + std::get<1>(q)->ip + (std::get<2>(q) ? ", HTTP-TS" : ", HTTP-FLV"); bool any = h.head && h.status == 200; size_t n = h.all().size();
            if (my && pw >= 0 && (!any || n < 50)) vx::fail("%s: playing is refused (status %d, %zu bytes)", c.c_str(), h.status, n); if (!my && (any || (h.head && h.status < 400))) vx::fail("%s: playing is accepted (status %d)", c.c_str(), h.status); if (!my && !h.head) vx::fail("%s: no response", c.c_str()); if (!h.c->closed) h.c->fin(); }
        vx::pump(); if (pw >= 0) { pb.c->fin(); vx::pump(); } vx::count(9, 9 * 5, 9);
    }
    vx::note("root %d", root);
}
// ---- max_connections 3
static int limit_roots() { return 9 * 9; }
static void limit_run(int root)
{
    nreset(); nserver(); std::vector<vx::Conn> up; nother = [&](vx::Conn c) { up.push_back(c); vx::refuse_connect(c); };
    vx::batch([&] {
        int n = vx::tier_pick(6, 7); struct K { std::unique_ptr<Client> c; bool in; }; std::vector<K> k; std::vector<std::unique_ptr<Http>> h; string log; int serial = 0;
        auto open = [&] { int m = 0; for (auto &x : k) m += x.in; return m; };
        auto enter = [&](const string &port) { k.push_back({ std::unique_ptr<Client>(new Client), open() < 3 }); auto &q = *k.back().c; q.name = "client"; q.open(port); bool ok = q.handshake(); if (ok != k.back().in) vx::fail("%s: a connection is %s although %d are open", log.c_str(), ok ? "accepted" : "refused", open() - k.back().in); if (!ok && !q.c->closed) vx::fail("%s: a refused connection stays open", log.c_str()); return ok; };
        for (int i = 0; i < n; i++) {
            int o = i == 0 ? root % 9 : i == 1 ? root / 9 : vx::choose(9);
            switch (o) {
            case 0: log += " open"; enter("1935"); break;
            case 1: { log += " publish"; if (enter("1936")) { auto &q = *k.back().c; q.connect("live"); q.create_stream(); q.publish("p" + std::to_string(serial++)); vx::pump(); } break; }
            case 2: { log += " play"; if (enter("1935")) { auto &q = *k.back().c; q.connect("live"); q.create_stream(); q.play("s"); vx::pump(); } break; }
            case 3: case 4: { log += o == 3 ? " fin" : " reset"; for (auto &x : k) if (x.in) { if (o == 3) x.c->c->fin(); else x.c->c->reset(); vx::pump(); if (!x.c->c->closed) vx::fail("%s: not closed", log.c_str()); x.in = false; break; } break; }
            case 5: { log += " garbage"; if (enter("1935")) { k.back().c->c->send(string("\x43\x00\x00", 3) + string(40, '\xff')); vx::pump(); if (!k.back().c->c->closed) { k.back().c->c->fin(); vx::pump(); } k.back().in = false; } break; }
            case 6: { log += " http"; h.emplace_back(new Http); h.back()->open("80"); h.back()->c->send(Http::req(i % 2 ? "/f/s.flv" : "/t/s.ts")); vx::pump(); if (h.back()->c->closed) vx::fail("%s: an HTTP player is refused", log.c_str()); break; }
            case 7: { log += " httpend"; if (!h.empty()) { h.back()->c->fin(); vx::pump(); if (!h.back()->c->closed) vx::fail("%s: not closed", log.c_str()); h.pop_back(); } break; }
            case 8: { log += " relay"; if (enter("1935")) { auto &q = *k.back().c; q.connect("ps"); q.create_stream(); nreset(); q.publish("r" + std::to_string(serial++)); nserve(); for (auto &x : nreq) if (!x.answered) { x.answered = true; x.c->send(nresp(302, "Location: rtmp://10.7.7.7:1999/x/y\r\n")); vx::pump(); } } break; }
            }
        }
        for (auto &x : h) { x->c->fin(); vx::pump(); } for (auto &x : k) if (x.in) { x.c->c->fin(); vx::pump(); x.in = false; } nserve(); for (auto &x : nreq) if (!x.answered) nanswer(x, A200); vx::advance(4000); nserve(); for (auto &x : nreq) if (!x.answered) nanswer(x, A200); vx::pump();
        log += " end"; k.clear(); for (int i = 0; i < 4; i++) enter("1935"); for (auto &x : k) if (x.in) { x.c->c->fin(); vx::pump(); } vx::note("%s", log.c_str());
    });
}
VX_SCENARIOS(
    { "rules", rules_roots, rules_run, "all 930 lists of one and two rules over {allow, deny} x {publish, play, both} x {all, IPv4, IPv4/24, IPv6, IPv6/33}, and all single rules in a server with three rules of its own: 9 addresses (IPv4, IPv6, IPv4 mapped) publish, and play over RTMP, HTTP-FLV and HTTP-TS" },
    { "limit", limit_roots, limit_run, "max_connections 3: every sequence of 6 (7) of {connection to either server that stays idle, publishes, plays, publishes with an outgoing relay that fails, sends garbage; close, reset; HTTP player joins, leaves}, then four connections" }
)
