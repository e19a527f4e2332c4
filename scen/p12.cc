// P12: the HTTP server named by on_publish/on_play decides, and hears of every start and end exactly once.
#include "live.h"
#include "http.h"
#include "flv.h"
#include "notify.h"
static Client *L; static Http *H; static string hist;
static void drop(Client *&c) { if (!c) return; if (!c->c->closed) c->c->fin(); vx::pump(); delete c; c = nullptr; }
static void dropall() { if (H) { if (!H->c->closed) H->c->fin(); vx::pump(); delete H; H = nullptr; } drop(L); drop(pub); nserve(); nreset(); vx::advance(100); nreset(); ev.clear(); hist = ""; }
static string vx_hex(const string &s) { string o; for (unsigned char c : s) { char b[8]; if (c > 32 && c < 127) o += (char) c; else { snprintf(b, 8, "\\x%02x", c); o += b; } } return o.size() > 90 ? o.substr(0, 90) + "..." : o; }
static size_t frames(Client &c) { c.collect(); size_t n = 0; for (auto &m : c.r.out) if (m.type == 9 || m.type == 8) n++; return n; }
static void params(const NReq &r, const string &call, const string &act, const string &app, const string &nm)
{
    std::map<string, string> w = { { "call", call }, { "act", act }, { "domain", "live.test" }, { "app", app }, { "name", nm }, { "groupid", "g7" }, { "k", "v" }, { "uri", nm } };
    if (r.path != "/cb/x") vx::fail("%s: notification path %s", hist.c_str(), r.path.c_str());
    if (!r.dup.empty()) vx::fail("%s: parameter %s twice", hist.c_str(), r.dup[0].c_str());
    for (auto &k : w) { auto i = r.q.find(k.first); if (i == r.q.end() || i->second != k.second) vx::fail("%s: notification %s has %s=%s, expected %s", hist.c_str(), r.str().c_str(), k.first.c_str(), i == r.q.end() ? "(nothing)" : i->second.c_str(), k.second.c_str()); }
    auto i = r.q.find("clientid"); if (i == r.q.end() || i->second.empty() || i->second.find_first_not_of("0123456789") != string::npos) vx::fail("%s: no clientid", hist.c_str());
}
// who: 0 publisher, 1 RTMP player, 2 HTTP-FLV player
static string APPN[] = { "pb", "pl", "pbi", "pli" };
static string app_of(int who, int ign) { return APPN[(who ? 1 : 0) + 2 * ign]; }
static bool closed(int who) { return who == 0 ? pub->c->closed : who == 1 ? L->c->closed : H->c->closed; }
static bool granted(int who)
{
    if (who == 0) return pub->saw_code("NetStream.Publish.Start");
    if (who == 1) return L->saw_code("NetStream.Play.Start") || frames(*L);
    H->check(); return H->head && H->status == 200;
}
static void start(int who, const string &app)
{
    if (who) { pub = new Client; pub->name = "publisher"; if (!pub->publisher("s", app)) vx::fail("publish refused"); }
    else { L = new Client; L->name = "player"; if (!L->player("s", app)) vx::fail("play refused"); pub = new Client; pub->name = "publisher"; if (!pub->up(app)) vx::fail("no connection"); }
    nexpect({}, "before the session starts");
    if (who == 0) pub->publish("s"); else if (who == 1) { L = new Client; L->name = "player"; if (!L->up(app)) vx::fail("no connection"); L->play("s"); } else { H = new Http; H->get("/" + app + "/s.flv"); }
    vx::pump();
}
static void leave(int who, int how)
{
    if (who == 0) { if (how == 0) pub->c->fin(); else if (how == 1) pub->cmd("deleteStream", { Null(), N(1) }); else pub->c->reset(); }
    else if (who == 1) { if (how == 0) L->c->fin(); else if (how == 1) L->cmd("deleteStream", { Null(), N(1) }); else L->c->reset(); }
    else { if (how != 2) H->c->fin(); else H->c->reset(); }
    vx::pump();
}
static int ver;
static void frame(uint32_t t) { emit(0, t, ++ver % 250); }
static int gate_roots() { return 3 * 2 * (A_MAX + 1); }
static void gate_run(int root)
{
    nserver();
    int who = root % 3, ign = root / 3 % 2, ans = root / 6; bool refuse = ans == A_MAX; string call = who ? "play" : "publish", app = app_of(who, ign);
    vx::batch([&] {
        dropall(); hist = app + (who == 2 ? " HTTP-FLV" : "") + " start: " + (refuse ? "connection refused" : AN[ans]);
        nmode = refuse ? 1 : 0; start(who, app); string id; bool early = false;
        if (!refuse) {
            NReq r = *nexpect({ call + "/start" }, hist.c_str()); params(r, call, "start", app, "s"); id = r.q["clientid"];
            if (granted(who)) vx::fail("%s: granted before the answer", hist.c_str());
            // before the answer
            int pre = vx::choose(4); uint32_t t = 1000;
            if (pre == 3) { frame(t); frame(t + 40); }
            if (pre == 1 || pre == 2) { hist += pre == 1 ? ", leaves first" : ", deleteStream first"; leave(who, pre - 1); early = true; NReq d = *nexpect({ call + "/done" }, hist.c_str()); params(d, call, "done", app, "s"); if (d.q["clientid"] != id) vx::fail("%s: another clientid", hist.c_str()); }
            Client *pl = who == 2 ? nullptr : L;
            size_t before = pl ? frames(*pl) : 0;
            if (before && who < 2) vx::fail("%s: %zu frames reached the player before the answer", hist.c_str(), before);
            if (who == 2 && (H->check(), !H->raw.empty())) vx::fail("%s: a response before the answer", hist.c_str());
            // the answer may take a while, less than the timeout
            long left = 3000; if (vx::choose(2)) { left = 10; hist += ", late"; vx::advance(2990); nexpect({}, hist.c_str()); if (!early && closed(who)) vx::fail("%s: closed before the timeout", hist.c_str()); if (!early && granted(who)) vx::fail("%s: granted before the answer", hist.c_str()); }
            size_t ri = 0; while (nreq[ri].act != "start") ri++;
            NReq keep = nreq[ri]; nanswer(keep, ans, left);
        } else { nserve(); }
        bool fail_ = refuse || afailed(ans), ok = !refuse && apositive(ans); if (fail_ && ign) ok = true;
        if (ign && ans == AGARB && !early) { dropall(); return; } // not defined which of the two it is
        if (early) { if (granted(who)) vx::fail("%s: granted after it left", hist.c_str()); vx::advance(8000); nexpect({}, (hist + " and then").c_str()); dropall(); return; }
        if (!ok) {
            vx::advance(0); if (who < 2 && !closed(who)) vx::fail("%s: refused, but the connection stays", hist.c_str());
            if (who == 2) { H->check(); if (!H->head || H->status != 403 || !(H->complete || H->c->closed)) vx::fail("%s: refused, but the response has status %d%s", hist.c_str(), H->status, H->head ? H->complete ? "" : ", incomplete" : " (none)"); }
            if (granted(who)) vx::fail("%s: granted although refused", hist.c_str());
            if (who < 2) { Client &c = who ? *L : *pub; c.collect(); if (c.saw_code(who ? "NetStream.Publish.Forbidden" : "NetStream.Play.Forbidden")) vx::fail("%s: refused with the status of the other command", hist.c_str()); vx::note("%s", c.saw_code(who ? "NetStream.Play.Forbidden" : "NetStream.Publish.Forbidden") ? "status sent" : "closed without a status"); }
            if (who == 0) { if (frames(*L)) vx::fail("%s: frames of a refused publisher", hist.c_str()); }
            nexpect(refuse ? std::vector<string>() : std::vector<string>{ call + "/done" }, hist.c_str());
            vx::advance(8000); nexpect({}, (hist + " and then").c_str()); dropall(); return;
        }
        if (closed(who)) vx::fail("%s: allowed, but the connection is closed", hist.c_str());
        frame(2000); frame(2040);
        if (who == 0 && !granted(0)) vx::fail("%s: allowed, but no Publish.Start", hist.c_str());
        if (who == 0 ? frames(*L) < 2 : who == 1 ? frames(*L) < 2 : (H->check(), flv_parse(H->all()).tags.size() < 2)) vx::fail("%s: allowed, but the frames do not arrive", hist.c_str());
        // updates: the given time after the last answer
        nmode = 0; int ups = vx::choose(3), pend = 0;
        vx::advance(998); nexpect({}, (hist + " before the first update").c_str());
        for (int u = 0; u < ups; u++) {
            vx::advance(2); NReq r = *nexpect({ call + "/update" }, (hist + " at the update").c_str()); params(r, call, "update", app, "s"); if (!id.empty() && r.q["clientid"] != id) vx::fail("%s: another clientid", hist.c_str());
            if (u == ups - 1 && vx::choose(2)) { pend = 1; hist += " update pending"; break; }
            static const int UA[] = { A200, A500, ACLOSE, ATIMEOUT, A403 }; int a = UA[vx::choose(5)]; hist += string(" update: ") + AN[a];
            nanswer(r, a); if (closed(who)) vx::fail("%s: closed", hist.c_str());
            vx::advance(998); nexpect({}, (hist + " before the next update").c_str());
        }
        int how = vx::choose(3); hist += how == 0 ? " leaves" : how == 1 ? " deleteStream" : " reset"; leave(who, how);
        NReq d = *nexpect({ call + "/done" }, hist.c_str()); params(d, call, "done", app, "s");
        if (pend) for (auto &r : nreq) if (r.act == "update" && !r.c->closed) { r.c->send(nresp(200)); nserve(); }
        nanswer(d, vx::choose(2) ? A200 : ACLOSE);
        vx::advance(8000); nexpect({}, (hist + " and then").c_str());
        dropall(); nserve();
    });
    vx::pump(); dropall();
}
// ---- one stream: start with its first session, done with its last
static int stream_roots() { return 3 * 3 * 3 * 3; }
static void stream_run(int root)
{
    nserver();
    int a0 = root % 3, a1 = root / 3 % 3, a2 = root / 9 % 3, a3 = root / 27;
    static Client *p[3]; static Http *f;
    vx::batch([&] {
        dropall(); for (auto &x : p) drop(x); nreset(); hist = "stream:"; int alive = 0; bool on[3] = { false, false, false }; static int k; string nm = "t" + std::to_string(k++ % 5); bool told = false, upd = false; string id;
        int n = vx::tier_pick(5, 7); nexpect({}, hist.c_str());
        for (int i = 0; i < n; i++) {
            int a = i == 0 ? a0 : i == 1 ? a1 : i == 2 ? a2 : i == 3 ? a3 : vx::choose(3);
            string w = a == 0 ? "publisher" : a == 1 ? "player 1" : "player 2"; std::vector<string> exp;
            if (!on[a]) {
                hist += " +" + w; on[a] = true; p[a] = new Client; p[a]->name = w; if (!p[a]->up("st")) vx::fail("no connection"); if (a == 0) p[a]->publish(nm); else p[a]->play(nm); vx::pump();
                if (alive++ == 0) exp = { "stream/start" };
            } else {
                hist += " -" + w; on[a] = false; int how = vx::choose(2); if (how) { p[a]->cmd("deleteStream", { Null(), N(1) }); vx::pump(); } if (!how) p[a]->c->fin(); vx::pump(); if (how) p[a]->c->fin(); vx::pump(); delete p[a]; p[a] = nullptr;
                if (--alive == 0) exp = { "stream/done" };
            }
            NReq *q = nexpect(exp, hist.c_str());
            if (!exp.empty()) {
                NReq r = *q; params(r, "stream", r.act, "st", nm);
                if (r.act == "done") { told = upd = false; nanswer(r, A200); continue; }
                told = true; int an = vx::choose(3); upd = an == 1; hist += an == 1 ? " (200)" : an == 2 ? " (404)" : " (pending)";
                if (an) { r.answered = true; r.c->send(nresp(an == 1 ? 200 : 404)); nserve(); }
            }
            nexpect({}, hist.c_str());
        }
        if (told && upd) { vx::advance(998); nexpect({}, (hist + " before the update").c_str()); vx::advance(2); NReq r = *nexpect({ "stream/update" }, (hist + " update").c_str()); params(r, "stream", "update", "st", nm); nanswer(r, A200); }
        for (int a = 0; a < 3; a++) if (on[a]) { hist += " -" + std::to_string(a); p[a]->c->fin(); vx::pump(); delete p[a]; p[a] = nullptr; nexpect(--alive == 0 ? std::vector<string>{ "stream/done" } : std::vector<string>(), hist.c_str()); }
        vx::advance(8000); nexpect({}, (hist + " and then").c_str());
    });
    dropall();
}
// ---- the codec header of a publisher
static const char *MAPP[] = { "mv", "ma", "mb", "mn", "m2" }; // video once, audio once, both once, every header of video, two servers
static int meta_roots() { return 5 * 3 * 3 * 3; }
static void meta_run(int root)
{
    nserver(); int cfg = root % 5, e0 = root / 5 % 3, e1 = root / 15 % 3, e2 = root / 45; static int k;
    vx::batch([&] {
        dropall(); string app = MAPP[cfg], nm = "n" + std::to_string(k++ % 5); hist = app + ":"; pub = new Client; pub->name = "publisher"; if (!pub->publisher(nm, app)) vx::fail("publish refused");
        bool told = false; uint32_t t = 1000; std::vector<NReq> open; int n = vx::tier_pick(4, 5); string id;
        std::vector<string> want1 = cfg == 4 ? std::vector<string>{ "meta/start", "meta/start" } : std::vector<string>{ "meta/start" };
        nexpect({}, hist.c_str()); bool gone = false, upd = false;
        for (int i = 0; i < n && !gone; i++) {
            int e = i == 0 ? e0 : i == 1 ? e1 : i == 2 ? e2 : vx::choose(3); // 0 video header 1 audio header 2 frame
            hist += e == 0 ? " VH" : e == 1 ? " AH" : " K"; emit(e == 0 ? 3 : e == 1 ? 4 : 0, t, ++ver % 250); t += 40;
            bool match = e == 2 ? false : cfg == 0 ? e == 0 : cfg == 1 ? e == 1 : cfg == 2 ? true : e == 0;
            bool hear = match && (cfg == 3 || !told); size_t from = nseen;
            nexpect(hear ? want1 : std::vector<string>(), hist.c_str());
            if (hear) {
                told = true; for (size_t j = from; j < nreq.size(); j++) { params(nreq[j], "meta", "start", app, nm); if (nreq[j].q["srv"] != std::to_string(cfg == 4 ? j - from : 0)) vx::fail("%s: request to the wrong server", hist.c_str()); }
                open.assign(nreq.begin() + from, nreq.end());
                int an = vx::choose(4); hist += an == 0 ? " (pending)" : an == 1 ? " (200)" : an == 2 ? " (403)" : " (closed)"; upd = an == 1;
                for (auto &r : open) if (an && !r.c->closed) { r.answered = true; if (an == 3) r.c->fin(); else r.c->send(nresp(an == 1 ? 200 : 403)); nserve(); }
                if (an >= 2) { gone = true; if (!pub->c->closed) vx::fail("%s: refused, but the publisher stays", hist.c_str()); }
            }
        }
        std::vector<string> done = want1; for (auto &x : done) x = "meta/done";
        if (!gone) {
            if (pub->c->closed) vx::fail("%s: the publisher was closed", hist.c_str());
            if (upd) { vx::advance(998); nexpect({}, (hist + " before the update").c_str()); vx::advance(2); std::vector<string> u = want1; for (auto &x : u) x = "meta/update"; size_t from = nseen; nexpect(u, (hist + " update").c_str());
                for (size_t j = from; j < nreq.size(); j++) { params(nreq[j], "meta", "update", app, nm); if (nreq[j].q["srv"] != std::to_string(cfg == 4 ? j - from : 0)) vx::fail("%s: update to the wrong server", hist.c_str()); }
                if (vx::choose(2)) { std::vector<NReq> uu(nreq.begin() + from, nreq.end()); for (auto &r : uu) nanswer(r, A200); vx::advance(998); nexpect({}, (hist + " before the second update").c_str()); vx::advance(2); nexpect(u, (hist + " second update").c_str()); } }
            int how = vx::choose(2); hist += how ? " deleteStream" : " leaves"; if (how) pub->cmd("deleteStream", { Null(), N(1) }); else pub->c->fin(); vx::pump();
        }
        nexpect(told ? done : std::vector<string>(), (hist + " end").c_str());
        for (auto &r : open) if (!r.answered && !r.c->closed) r.c->send(nresp(200));
        nserve(); vx::advance(8000); nexpect({}, (hist + " and then").c_str());
    });
    dropall();
}
// ---- whatever the stream is called
static string unesc(const string &s) { string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { o += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i]; return o; }
static const string NMS[] = { "a b", "a&act=done", "a&name=x", "a#b", "a%20b", "a\r\nX-Y: z", "a\r\n\r\nGET /cb/x?call=publish&act=done HTTP/1.1", "a\tb", "a\x7f", "\xc3\xa9\xff", "a=b", "a/b", "a+b", string(255, 'n'), string(80, '&'), string(255, ' '), "a HTTP/1.1" };
static int names_roots() { return 3 * (int) (sizeof(NMS) / sizeof(NMS[0])); }
static void names_run(int root)
{
    nserver(); int who = root % 3; string nm = NMS[root / 3], call = who == 1 ? "play" : "publish", app = who == 1 ? "nl" : "nb", tc = "rtmp://live.test/" + app; dropall(); hist = call + " of '" + vx_hex(nm) + "'";
    Client c; c.name = "client"; string dom = "live.test"; if (who == 2) { dom = nm.substr(0, 100); if (dom.find_first_of("/:?#") != string::npos) return; tc = "rtmp://" + dom + "/" + app; nm = "s"; hist = "domain '" + vx_hex(dom) + "'"; }
    c.open(); if (!c.handshake()) vx::fail("no handshake"); if (!c.connect(app, tc) || !c.create_stream()) { if (who == 2) return; vx::fail("no connection"); }
    if (who == 1) c.play(nm); else c.publish(nm); vx::pump();
    NReq r = *nexpect({ call + "/start" }, hist.c_str());
    if (who && !r.dup.empty()) vx::fail("%s: parameter %s twice", hist.c_str(), r.dup[0].c_str()); // the publisher's URL has args=k=$name
    nm = nm.substr(0, nm.find('?')); // arguments, not part of the name
    if (unesc(r.q["name"]) != nm) vx::fail("%s: the server is told the name '%s'", hist.c_str(), r.q["name"].c_str());
    if (unesc(r.q["domain"]) != dom) vx::fail("%s: the server is told the domain '%s'", hist.c_str(), r.q["domain"].c_str());
    if (r.q["app"] != app) vx::fail("%s: the server is told the application '%s'", hist.c_str(), r.q["app"].c_str());
    nanswer(r, A200); if (c.c->closed) vx::fail("%s: closed", hist.c_str());
    c.c->fin(); vx::pump(); r = *nexpect({ call + "/done" }, hist.c_str()); if (unesc(r.q["name"]) != nm) vx::fail("%s: the server is told the end of '%s'", hist.c_str(), r.q["name"].c_str());
    dropall();
}
VX_SCENARIOS(
    { "names", names_roots, names_run, "17 stream names (as publisher and player) and domain names with spaces, line ends, separators, escapes, non-ASCII bytes and 255 bytes" },
    { "stream", stream_roots, stream_run, "every sequence of 5 (7) joins and leaves of a publisher and two players of one stream x how each leaves x the answer to the start (200, 404, pending)" },
    { "meta", meta_roots, meta_run, "5 configurations (video, audio, both, every header, two servers) x every sequence of 4 (5) of video header, audio header, frame x the answers (200, 403, closed, pending) x updates x how the publisher leaves" },
    { "gate", gate_roots, gate_run, "who (publisher, RTMP player, HTTP-FLV player) x ignore_invalid_notify x answer to the start (200, 204, with a body, byte by byte, 302, 403, 500, garbage, closed, closed inside the header, none, connection refused) x before it (nothing, disconnect, deleteStream, frames) x quick or just before the timeout x number of updates and the answer to each (200, 403, 500, closed, none, or still pending) x how the session ends x the answer to the end" })
