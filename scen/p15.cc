// P15: an HTTP-FLV response is exactly the live stream as an FLV file, whatever the socket does.
#include "live.h"
#include "http.h"
#include "flv.h"
static const char *APP[] = { "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7" };
static void start_pub(const string &app)
{
    static Client *old; if (old) { if (!old->c->closed) old->c->fin(); vx::pump(); delete old; }
    pub = old = new Client; pub->name = "publisher"; ev.clear();
    if (!pub->publisher("s", app)) vx::fail("publish refused");
}
static Client *rtmp_player(const string &app, const string &nm = "s")
{
    static Client *o; if (o) { if (!o->c->closed) o->c->fin(); vx::pump(); delete o; }
    o = new Client; o->name = "RTMP player"; if (!o->player(nm, app)) vx::fail("play refused"); return o;
}
static Http *flv_player(const string &path, const string &ver)
{
    static Http *o; if (o) { if (!o->c->closed) o->c->fin(); vx::pump(); delete o; }
    o = new Http; o->name = "HTTP-FLV player"; o->get(path, ver); vx::pump(); return o;
}
static std::vector<Msg> media(Client &p) { p.collect(); std::vector<Msg> v; for (auto &m : p.r.out) if (m.type == 8 || m.type == 9 || (m.type == 18 && m.data.find("|RtmpSampleAccess") == string::npos)) { v.push_back(m); v.back().sid = 0; } return v; }
static std::vector<Msg> tags(Http &h, const string &ver, int flags, bool whole)
{
    h.check();
    if (h.raw.empty()) return {};
    if (!h.head) { if (whole) vx::fail("the response has no complete header"); return {}; }
    if (h.status != 200) vx::fail("status %d", h.status);
    if (h.hdr["content-type"] != "video/x-flv") vx::fail("content type '%s'", h.hdr["content-type"].c_str());
    if (h.chunked && ver == "1.0") vx::fail("chunked response to an HTTP/1.0 request");
    if (h.clen >= 0) vx::fail("a live stream of announced length");
    FlvFile f = flv_parse(h.all());
    if (!f.ok) vx::fail("invalid FLV: %s", f.err.c_str());
    if (whole && f.rest) vx::fail("%zu bytes after the last whole tag", f.rest);
    if (f.flags >= 0 && f.flags != flags) vx::fail("FLV header flags %d, expected %d", f.flags, flags);
    return f.tags;
}
static string ms(const std::vector<Msg> &v) { string s; for (auto &m : v) s += " " + mstr(m).substr(0, 40); return s; }
static void same(const std::vector<Msg> &got, const std::vector<Msg> &want, const char *why)
{
    bool eq = got.size() == want.size(); for (size_t i = 0; eq && i < got.size(); i++) eq = got[i].type == want[i].type && got[i].ts == want[i].ts && got[i].data == want[i].data;
    if (!eq) vx::fail("%s: HTTP-FLV got%s; an RTMP player got%s", why, ms(got).c_str(), ms(want).c_str());
}
// ---- the same stream as over RTMP
static int same_roots() { return 8 * 25 * 2; }
static void same_run(int root)
{
    int ci = root % 8, k0 = root / 8 % 5, k1 = root / 40 % 5; string ver = root / 200 ? "1.1" : "1.0";
    vx::batch([&] {
        int n = vx::tier_pick(4, 6), mpos = vx::choose(3) * 2 - 1, jn = vx::choose(n); uint32_t t = vx::choose(2) ? 0 : 0xfffffe; // past 24 bits of time
        start_pub(APP[ci]); Client *p = nullptr; Http *h = nullptr; size_t jidx = 0; int v = 0, mv = 0;
        for (int i = 0; i < n; i++) {
            if (i == jn) { jidx = ev.size(); p = rtmp_player(APP[ci]); h = flv_player(string("/") + APP[ci] + "/s.flv", ver); }
            if (i + 1 == mpos || i == mpos) emit(5, t, ++mv);
            int k = i == 0 ? k0 : i == 1 ? k1 : vx::choose(5);
            emit(k, t, ++v); if (k <= 2) t += 40;
        }
        vx::note("app a%d HTTP/%s: %s", ci, ver.c_str(), evs(jidx).c_str());
        if (h->c->closed) vx::fail("the HTTP connection was closed");
        auto g = tags(*h, ver, 5, true); same(g, media(*p), "streams differ");
        judge_got(ci, received_msgs(g, true), jidx, "HTTP-FLV player");
    });
}
// ---- every position at which the socket may block
static const char *PAPP[] = { "a0", "m8", "a5" };
static int press_roots() { return 3 * 3 * 2 * 4; }
static void press_run(int root)
{
    string app = PAPP[root % 3], path = root / 3 % 3 == 1 && app == "a0" ? "/nc/s.flv" : "/" + app + "/s.flv", ver = root / 3 % 3 == 2 ? "1.0" : "1.1"; int big = root / 9 % 2, pat = root / 18;
    if (root / 3 % 3 == 1 && app != "a0") return;
    static size_t total[2];
    vx::batch([&] {
        // pat 0: block at byte b, release after r events; 1: at most b bytes a write, always ready again; 2: n bytes per event; 3: two blocks
        int b = vx::choose(big ? 260 : 130), b2 = pat == 3 ? vx::choose(vx::tier_pick(8, 40)) * (big ? 61 : 5) : 0, r = pat == 1 ? 0 : vx::choose(3); size_t at = (size_t) b * (big ? 21 : vx::tier_pick(7, 7)) + (size_t) (big ? 0 : r);
        if (pat == 1 || pat == 2) at = (size_t) (big ? b * 13 + 1 : b + 1);
        if (pat == 1 && r) return;
        start_pub(app); auto *p = rtmp_player(app); int v = 0; uint32_t t = 0;
        if (app == "a5") { emit(5, 0, 1); emit(3, 0, ++v); emit(0, t, ++v); emit(1, t += 40, ++v); p = rtmp_player(app); }
        auto *h = flv_player(path, ver); size_t jidx = ev.size(); int held = 0;
        if (pat == 0 || pat == 3) h->c->win = (long) at;
        if (pat == 1) h->c->wr_policy = [at](vx::Sock &, long want) { return std::min<long>(want, (long) at); };
        if (pat == 2) h->c->win = (long) at;
        auto step = [&](int k) {
            if (big && k <= 1) { Ev e{ k, t, ++v, (k ? avc_inter : avc_key)(string(900 + 137 * v, (char) ('a' + v)), 0) }; ev.push_back(e); pub->send(video(t, e.data), 6); vx::pump(); } else emit(k, t, ++v);
            if (k <= 2) t += 40;
            if (pat == 2) { if (r == 2) vx::advance(10); h->c->open_window((long) at); vx::pump(); }
            if ((pat == 0 || pat == 3) && h->c->win == 0) { if (held++ >= r) { h->c->open_window(pat == 3 && held < 100 ? b2 + 1 : -1); if (pat != 3) h->c->win = -1; else if (held >= 100) h->c->win = -1; else held = 100; vx::pump(); } }
        };
        if (app != "a5") { emit(5, 0, 1); step(3); step(4); step(0); }
        step(2); step(1); step(1); step(2); step(0); step(1); step(2);
        string mid = h->c->gone() ? "" : "x"; if (mid.empty()) vx::fail("the HTTP connection was closed");
        auto part = tags(*h, ver, 5, false); // a prefix of what is to come
        auto want = media(*p);
        if (part.size() > want.size()) vx::fail("more tags than messages"); for (size_t i = 0; i < part.size(); i++) if (part[i].data != want[i].data || part[i].ts != want[i].ts) vx::fail("tag %zu differs: HTTP-FLV got%s; an RTMP player got%s", i, ms(part).c_str(), ms(want).c_str());
        h->c->open_window(-1); h->c->win = -1; h->c->wr_policy = nullptr; vx::pump();
        vx::note("%s HTTP/%s pattern %d at %zu release %d", app.c_str(), ver.c_str(), pat, at, r);
        auto g = tags(*h, ver, 5, true); same(g, want, "streams differ after the socket blocked");
        judge_got(app == "a5" ? 5 : 0, received_msgs(g, true), jidx, "HTTP-FLV player"); total[big] = std::max(total[big], h->raw.size());
    });
}
// ---- who gets which stream
struct UrlCase { const char *path; const char *app, *name; int status; };
static const UrlCase UC[] = {
    { "/live/s.flv", "a0", "s", 200 }, { "/live/s", "a0", "s", 200 }, { "/a1/s.flv", "a1", "s", 200 }, { "/a1/s", "a1", "s", 200 }, { "/live/dir/s.flv", "a0", "s", 200 },
    { "/live/s.flv?app=a1", "a1", "s", 200 }, { "/a0/s.flv?app=a1&x=y", "a1", "s", 200 }, { "/a0/s.flv?x=y", "a0", "s", 200 }, { "/live/t.flv", "a0", "t", 200 }, { "/a1/t.flv?k=%20", "a1", "t", 200 },
    { "/live/s%2eflv", "a0", "s", 200 }, { "/live/", "", "", 400 }, { "/live", "", "", 400 }, { "/live/.flv", "", "", 400 }, { "/zz/s.flv", "", "", 404 }, { "/live/s.flv?app=zz", "", "", 404 },
    { "/a1/s.flv.flv", "a1", "s", 200 }, { "/ni/s.flv", "", "", 404 }, { "/ni/u.flv", "ni", "u", 200 }, { "/plain", "", "", 200 } };
static int url_roots() { return (int) (sizeof UC / sizeof *UC) * 3; }
static void url_run(int root)
{
    const UrlCase &u = UC[root / 3]; string ver = root % 3 == 2 ? "1.0" : "1.1", meth = root % 3 == 1 ? "HEAD" : "GET";
    std::vector<std::pair<string, string>> st = { { "a0", "s" }, { "a1", "s" }, { "a0", "t" }, { "a1", "t" }, { "ni", "u" } };
    std::vector<std::unique_ptr<Client>> pubs;
    for (auto &x : st) { pubs.emplace_back(new Client); if (!pubs.back()->publisher(x.second, x.first)) vx::fail("publish refused"); }
    vx::batch([&] {
        int before = vx::choose(2), extra = vx::choose(4); uint32_t t = 100; string xh = extra == 1 ? "Referer: http://x/\r\n" : extra == 2 ? "Range: bytes=0-10\r\n" : extra == 3 ? "Content-Length: 5\r\n" : "";
        auto fr = [&] { for (size_t i = 0; i < st.size(); i++) { pubs[i]->send(video(t, avc_key("K" + st[i].first + st[i].second + std::to_string(t))), 6); pubs[i]->send(audio(t, aac_raw("A" + st[i].first + st[i].second + std::to_string(t))), 4); } vx::pump(); t += 40; };
        if (before) fr();
        Http h; h.open(); h.c->send(Http::req(u.path, ver, meth, xh)); if (extra == 3) h.c->send("hello"); vx::pump(); uint32_t t0 = t; fr(); fr(); h.check();
        vx::note("%s %s HTTP/%s -> %d, %zu bytes", meth.c_str(), u.path, ver.c_str(), h.status, h.raw.size());
        if (!h.head) vx::fail("%s %s: no response", meth.c_str(), u.path);
        if (h.status != u.status) vx::fail("%s %s: status %d, expected %d", meth.c_str(), u.path, h.status, u.status);
        if (u.status == 200 && u.app[0] && meth == "GET") {
            FlvFile f = flv_parse(h.all()); if (!f.ok || f.rest) vx::fail("%s: invalid FLV: %s", u.path, f.err.c_str());
            std::vector<string> want; for (uint32_t x = t0; x < t; x += 40) { string id = string(u.app) + u.name + std::to_string(x); want.push_back(avc_key("K" + id)); want.push_back(aac_raw("A" + id)); }
            std::vector<string> got; for (auto &m : f.tags) if (m.type != 18) got.push_back(m.data);
            if (u.app[1] == '1') { if (got.empty()) vx::fail("%s: nothing received", u.path); for (auto &g : got) if (std::find(want.begin(), want.end(), g) == want.end()) vx::fail("%s: received a frame of another stream", u.path); }
            else if (got != want) vx::fail("%s: received %zu frames, expected the %zu of %s/%s", u.path, got.size(), want.size(), u.app, u.name);
        } else if (meth == "HEAD" && u.app[0] && h.raw.size() != h.pos) vx::fail("HEAD answered with a body of %zu bytes", h.raw.size() - h.pos);
        vx::observe(std::to_string(h.status) + ":" + std::to_string(h.body.size())); h.c->fin(); vx::pump(); if (!h.c->closed) vx::fail("%s: the connection stays open after the client left", u.path);
    });
}
// ---- names and arguments of every length around the limits
static int len_roots() { return 2; }
static void len_run(int root)
{
    Client p; if (!p.up("a0")) vx::fail("no session"); (void) root;
    vx::batch([&] {
        int ln = vx::choose(5), la = vx::choose(6); static const int LN[] = { 1, 254, 255, 256, 300 }, LA[] = { 0, 10, 254, 255, 256, 600 };
        string nm(LN[ln], 'n'), path = "/live/" + nm + ".flv"; if (LA[la]) { path += "?k="; path += string(LA[la], 'v'); }
        Client q; bool okp = LN[ln] <= 255 && q.publisher(nm, "a0");
        Http h; h.get(path, root ? "1.1" : "1.0"); vx::pump();
        if (okp) { q.send(video(40, avc_key("K")), 6); vx::pump(); }
        h.check(); vx::note("name of %d, arguments of %d: status %d", LN[ln], LA[la], h.status);
        if (LN[ln] >= 256) { if (h.status != 400) vx::fail("a stream name of %d bytes: status %d", LN[ln], h.status); }
        else if (!okp) vx::fail("publishing a stream with a name of %d bytes failed", LN[ln]);
        else { if (h.status != 200) vx::fail("name of %d bytes, arguments of %d: status %d", LN[ln], LA[la], h.status); if (flv_parse(h.all()).tags.size() != 1) vx::fail("name of %d bytes: frame not received", LN[ln]); }
        if (!h.c->closed) h.c->fin(); q.c ? q.c->fin() : (void) 0; vx::pump();
    });
}
// ---- the flags of the file header
static int flags_roots() { return 4; }
static void flags_run(int root)
{
    static const char *P[] = { "/live/s.flv", "/ao/s.flv?app=a0", "/vo/s.flv?app=a0", "/auto/s.flv?app=a0" };
    vx::batch([&] {
        int pre = vx::choose(4), live = 1 + vx::choose(3); static Http *last; if (last && !last->c->closed) last->c->fin(); vx::pump(); if (pub) { pub->c->fin(); vx::pump(); } start_pub("a0"); uint32_t t = 0; int v = 0;
        if (pre & 1) emit(2, t, ++v); if (pre & 2) emit(0, t, ++v);
        auto *h = flv_player(P[root], "1.0"); last = h; if (live & 1) emit(2, t += 40, ++v); if (live & 2) emit(0, t += 40, ++v);
        h->check(); FlvFile f = flv_parse(h->all()); if (!f.ok) vx::fail("invalid FLV: %s", f.err.c_str());
        // with neither configured: what the stream had when the response began
        int first = live & 1 ? 1 : 2, expect = root == 0 ? 5 : root == 1 ? 4 : root == 2 ? 1 : ((pre | first) & 1 ? 4 : 0) | ((pre | first) & 2 ? 1 : 0);
        if (f.flags != expect) vx::fail("%s after %s: flags %d, expected %d", P[root], evs(0).c_str(), f.flags, expect);
        if (f.tags.size() != (size_t) ((live & 1) + (live >> 1))) vx::fail("%s: %zu tags", P[root], f.tags.size());
    });
}
// ---- players and publishers come and go
static int life_roots() { return 3 * 6; }
static void life_run(int root)
{
    string app = root % 3 == 0 ? "a0" : root % 3 == 1 ? "a5" : "ni"; int k0 = root / 3;
    vx::batch([&] {
        int n = vx::tier_pick(6, 7); std::unique_ptr<Client> p; std::unique_ptr<Http> h[2]; bool up = false; uint32_t t = 1000; int v = 0; std::vector<string> want[2], sent; bool waiting[2] = { true, true };
        string hist; auto drop = [&](int i, bool rst) { if (rst) h[i]->c->reset(); else h[i]->c->fin(); vx::pump(); if (!h[i]->c->closed) vx::fail("%s: the connection of a player that left stays open", hist.c_str()); h[i].reset(); };
        auto checkp = [&](int i, bool end = false) { h[i]->check(); if (end && h[i]->raw.size() < 200) return; if (end && h[i]->head && h[i]->status != 200) { if (h[i]->status < 400 || !want[i].empty()) vx::fail("%s: status %d", hist.c_str(), h[i]->status); return; } auto f = flv_parse(h[i]->all()); if (!f.ok) vx::fail("%s: invalid FLV: %s", hist.c_str(), f.err.c_str()); std::vector<string> got; for (auto &m : f.tags) if (m.type == 9) got.push_back(m.data);
            if (app == "a5") { size_t k = 0; for (auto &x : got) { while (k < sent.size() && sent[k] != x) k++; if (k++ >= sent.size()) vx::fail("%s: frame repeated, out of order or never published", hist.c_str()); } }
            else if (h[i]->c->win >= 0 ? got.size() > want[i].size() || !std::equal(got.begin(), got.end(), want[i].begin()) : got != want[i]) vx::fail("%s: player %d received %zu of %zu frames", hist.c_str(), i, got.size(), want[i].size()); };
        for (int s = 0; s < n; s++) {
            int k = s == 0 ? k0 : vx::choose(6);
            if (k == 0) { if (up) { p->c->fin(); vx::pump(); up = false; hist += " stop"; if (app == "ni") for (int i = 0; i < 2; i++) if (h[i]) { bool bl = h[i]->c->win >= 0; if (bl) { h[i]->c->open_window(-1); vx::pump(); h[i]->c->win = 0; } checkp(i, true); if (bl) h[i]->c->win = -1; if (!h[i]->c->closed && !(h[i]->status != 200 && h[i]->complete)) vx::fail("%s: the player stays although the stream ended (idle_streams off)", hist.c_str()); h[i].reset(); } }
                else { p.reset(new Client); if (!p->publisher("s", app)) vx::fail("%s: publish refused", hist.c_str()); up = true; hist += " start"; } }
            else if (k == 1) { if (!up) { hist += " -"; continue; } string d = avc_key("k" + std::to_string(++v)); p->send(video(t, d), 6); vx::pump(); t += 40; sent.push_back(d); for (int i = 0; i < 2; i++) if (h[i]) want[i].push_back(d); hist += " frame"; }
            else if (k <= 3) { int i = k - 2; if (h[i]) { checkp(i); drop(i, (s & 1)); hist += " leave" + std::to_string(i); continue; } h[i].reset(new Http); want[i].clear(); h[i]->get("/" + app + "/s.flv", i ? "1.1" : "1.0"); vx::pump(); hist += " join" + std::to_string(i);
                if (app == "ni" && !up) { h[i]->check(); if (h[i]->status != 404 || !(h[i]->c->closed || h[i]->complete)) vx::fail("%s: status %d for a stream nobody publishes", hist.c_str(), h[i]->status); h[i]->c->fin(); vx::pump(); h[i].reset(); } }
            else if (k == 4) { if (!h[0]) { hist += " -"; continue; } h[0]->c->win = 3; hist += " block0"; }
            else { if (!h[0]) { hist += " -"; continue; } h[0]->c->open_window(-1); h[0]->c->win = -1; vx::pump(); hist += " open0"; }
        }
        for (int i = 0; i < 2; i++) if (h[i]) { if (h[i]->c->win >= 0) { h[i]->c->open_window(-1); h[i]->c->win = -1; vx::pump(); } checkp(i); drop(i, false); }
        if (up) { p->c->fin(); vx::pump(); } vx::note("%s:%s", app.c_str(), hist.c_str()); (void) waiting;
    });
}
VX_SCENARIOS(
    { "same", same_roots, same_run, "8 applications (as for P04) x HTTP/1.0 and 1.1: every publishing history of 4 (6) events over {key frame, inter frame, audio, headers}, metadata at two places or absent, timestamps from 0 or across 2^24, an HTTP-FLV and an RTMP player joining before every event" },
    { "press", press_roots, press_run, "small and large frames, merge_frame 1 and 8, cache, three encodings of the body: the socket blocks at every 7th (large: 21st) byte plus 0-2 of the response for 0-2 further events, takes at most n bytes per write, n bytes per event, or blocks twice" },
    { "url", url_roots, url_run, "20 request targets x GET/HEAD/HTTP 1.0 x 4 header variants with five streams of two applications live" },
    { "len", len_roots, len_run, "stream names of 1, 254-256 and 300 bytes x arguments of 0, 10, 254-256 and 600 bytes" },
    { "flags", flags_roots, flags_run, "4 flag configurations x what was published before x first frames" },
    { "life", life_roots, life_run, "every sequence of 6 (7) of {publisher starts or stops, frame, each of two players joins or leaves, one player's socket blocks or opens} with idle_streams on, a cache, and idle_streams off" })
