// P28: the statistics pages tell the truth.
#include "tree.h"
#include "http.h"
#include "rtmp.h"
#include "avc.h"
#include <algorithm>
#include <memory>
#include <malloc.h>
#include <unistd.h>
#include <cmath>
using namespace rt;
static string hist;
static string get(const string &path, const string &extra = "", const string &method = "GET", const string &ver = "1.1")
{
    Http h; h.name = hist + ": " + method + " " + path; h.open(); h.c->send(Http::req(path, ver, method, "Connection: close\r\n" + extra)); vx::pump(); for (int i = 0; i < 200 && !h.c->closed; i++) { h.collect(); vx::pump(); if (i == 5 && method == "POST") vx::advance(31000); } h.check();
    if (h.status != 200 || !h.c->closed) vx::fail("%s: status %d%s", h.name.c_str(), h.status, h.c->closed ? "" : ", no end"); if (method == "HEAD") { if (!h.body.empty()) vx::fail("%s: a body of %zu bytes", h.name.c_str(), h.body.size()); return ""; }
    if (h.clen >= 0 ? (size_t) h.clen != h.body.size() : ver == "1.1" && !h.chunked) vx::fail("%s: %zu bytes, announced %ld", h.name.c_str(), h.body.size(), h.clen); return h.body;
}
// what a page says about one client / stream, in either format
struct C { string id, ip; long time = 0; bool pub = false, active = false; string proto, flash, page, swf; };
struct S { string name; long time = 0; double in = 0, out = 0; std::vector<C> c; long n = 0; bool pub = false, active = false, meta = false; string w, h, fps, vc, prof, level, ac, aprof, ch, rate; };
struct Page { std::map<string, std::vector<S>> srv; std::map<string, long> total; long naccepted = 0, pid = 0; double in = 0, out = 0; };
static double num(const Node *n, const string &k) { auto p = n->get(k); if (!p || p->text.empty() || p->text.find_first_not_of("0123456789.-") != string::npos) vx::fail("%s: %s is '%s'", hist.c_str(), k.c_str(), p ? p->text.c_str() : "missing"); return atof(p->text.c_str()); }
static Page xmlpage(const string &t)
{
    auto d = xml(t); if (!d->err.empty()) vx::fail("%s: the page is no XML document: %s: %s", hist.c_str(), d->err.c_str(), t.substr(0, 60).c_str()); Page g; const Node *r = d->get("rtmp"); if (!r) vx::fail("%s: no rtmp element", hist.c_str());
    g.naccepted = (long) num(r, "naccepted"); g.pid = (long) num(r, "pid"); g.in = num(r, "bytes_in"); g.out = num(r, "bytes_out");
    for (auto s : r->all("server")) {
        string id = s->val("serverid"); if (g.srv.count(id)) vx::fail("%s: server %s appears twice", hist.c_str(), id.c_str()); auto &v = g.srv[id]; const Node *l = s->get("live"); if (!l) vx::fail("%s: no live element", hist.c_str()); g.total[id] = (long) num(l, "nclients");
        for (auto x : l->all("stream")) {
            S q; q.name = x->val("name"); q.time = (long) num(x, "time"); q.in = num(x, "bytes_in"); q.out = num(x, "bytes_out"); q.n = (long) num(x, "nclients"); q.pub = x->count("publishing"); q.active = x->count("active");
            for (auto y : x->all("client")) { C c; c.id = y->val("id"); c.ip = y->val("remote_address"); c.time = (long) num(y, "time"); c.pub = y->count("publishing"); c.active = y->count("active"); c.flash = y->val("flashver"); c.page = y->val("pageurl"); c.swf = y->val("swfurl"); q.c.push_back(c); }
            if (auto m = x->get("meta")) { q.meta = true; auto a = m->get("video"), b = m->get("audio"); if (!a || !b) vx::fail("%s: meta without video or audio", hist.c_str()); q.w = a->val("width"); q.h = a->val("height"); q.vc = a->val("codec"); q.prof = a->val("profile"); q.level = a->val("level"); q.fps = a->val("frame_rate"); q.ac = b->val("codec"); q.aprof = b->val("profile"); q.ch = b->val("channels"); q.rate = b->val("sample_rate"); }
            v.push_back(q);
        }
    }
    return g;
}
static Page jsonpage(const string &t)
{
    auto d = json(t); if (!d->err.empty()) vx::fail("%s: the page is no JSON document: %s", hist.c_str(), d->err.c_str()); Page g; const Node *r = d->get("live_stream"); if (!r) vx::fail("%s: no live_stream", hist.c_str());
    g.naccepted = (long) num(r, "naccepted"); g.pid = (long) num(r, "pid"); if (!r->get("in") || !r->get("out") || !r->get("server_array")) vx::fail("%s: members are missing", hist.c_str()); g.in = num(r->get("in"), "bytes"); g.out = num(r->get("out"), "bytes");
    for (auto &sp : r->get("server_array")->kids) {
        const Node *s = sp.get(); string id = s->val("serverid"); if (g.srv.count(id)) vx::fail("%s: server %s appears twice", hist.c_str(), id.c_str()); auto &v = g.srv[id]; g.total[id] = (long) num(s, "total_clients"); if (g.total[id] != num(s, "rtmp_clients") + num(s, "flv_clients") + num(s, "ts_clients") + num(s, "hls_clients")) vx::fail("%s: totals of protocols do not add up", hist.c_str()); if (!s->get("stream_array")) vx::fail("%s: no stream_array", hist.c_str());
        for (auto &xp : s->get("stream_array")->kids) {
            const Node *x = xp.get(); S q; q.name = x->val("name"); q.time = (long) num(x, "time"); q.in = num(x->get("in"), "bytes"); q.out = num(x->get("out"), "bytes"); q.n = (long) num(x, "total_clients"); q.active = x->val("active") == "true"; std::map<string, long> by;
            for (auto &yp : x->get("client_array")->kids) { const Node *y = yp.get(); C c; c.id = y->val("id"); c.ip = y->val("remote_address"); c.time = (long) num(y, "time"); c.pub = y->val("publishing") == "true"; c.active = y->val("active") == "true"; c.proto = y->val("protocol"); c.flash = y->val("flashver"); c.page = y->val("pageurl"); c.swf = y->val("swfurl"); q.pub |= c.pub; if (!c.pub) by[c.proto]++; q.c.push_back(c); }
            if (by["rtmp"] != num(x, "rtmp_clients") || by["http-flv"] != num(x, "flv_clients") || by["http-ts"] != num(x, "ts_clients")) { string z; for (auto &b : by) z += " " + b.first + "=" + std::to_string(b.second); vx::fail("%s: stream %s has clients%s, counted rtmp %s flv %s ts %s", hist.c_str(), q.name.c_str(), z.c_str(), x->val("rtmp_clients").c_str(), x->val("flv_clients").c_str(), x->val("ts_clients").c_str()); }
            if (auto m = x->get("meta")) { q.meta = true; auto a = m->get("video"), b = m->get("audio"); if (!a || !b) vx::fail("%s: meta without video or audio", hist.c_str()); q.w = a->val("width"); q.h = a->val("height"); q.vc = a->val("codec"); q.prof = a->val("profile"); q.level = a->val("compat"); q.fps = a->val("frame_rate"); q.ac = b->val("codec"); q.aprof = b->val("profile"); q.ch = b->val("channels"); q.rate = b->val("sample_rate"); }
            v.push_back(q);
        }
    }
    return g;
}
// ---- every history of sessions
struct Sess { string srv, app, name; bool pub; string proto, ip; uint64_t t0; std::unique_ptr<Client> c; std::unique_ptr<Http> h; bool sent = false; string full() const { return srv + "/" + app + "/" + name; } };
struct World {
    int seq = 0;
    std::vector<std::unique_ptr<Sess>> l; std::map<string, uint64_t> born; std::map<string, double> payload, wire, got; long base = -1, accepted = 0; bool media = false; uint32_t ts = 0;
    Sess *find(const string &full, bool pub, const string &proto) { for (auto &s : l) if (s->full() == full && s->pub == pub && s->proto == proto) return s.get(); return nullptr; }
    void join(const string &srv, const string &app, const string &name, bool pub, const string &proto)
    {
        l.emplace_back(new Sess); Sess &s = *l.back(); s.srv = srv; s.app = app; s.name = name; s.pub = pub; s.proto = proto; s.ip = "10.0.0." + std::to_string(++seq + 20); s.t0 = vx::now_ms(); if (!born.count(s.full())) born[s.full()] = vx::now_ms();
        string port = srv == "a" ? "1935" : "1936"; if (proto == "rtmp") { accepted++; s.c.reset(new Client); s.c->name = "client"; bool ok = pub ? s.c->publisher(name, app, port, s.ip) : s.c->player(name, app, port, s.ip); if (!ok) vx::fail("%s: refused", hist.c_str()); return; }
        s.h.reset(new Http); s.h->name = "player"; s.h->open("80", s.ip); s.h->c->send(Http::req(string("/") + (proto == "http-flv" ? "f" : "t") + "/" + name + (proto == "http-flv" ? ".flv" : ".ts") + "?app=" + app)); vx::pump();
    }
    void leave(Sess *s, bool rst) { auto &k = s->c ? s->c->c : s->h->c; if (rst) k->reset(); else k->fin(); vx::pump(); if (!k->closed) vx::fail("%s: not closed", hist.c_str()); string f = s->full(); l.erase(std::find_if(l.begin(), l.end(), [&](auto &x) { return x.get() == s; })); bool any = false; for (auto &x : l) any |= x->full() == f; if (!any) { born.erase(f); payload.erase(f); got.erase(f); } }
    void frames(Sess *s) { for (int k = 0; k < 4; k++) { Msg m = k == 0 ? video(ts, avc_seq()) : k == 1 ? audio(ts, aac_seq()) : k == 2 ? video(ts, avc_key("frame")) : audio(ts, aac_raw("sound")); if (k < 2 && s->sent) continue; s->c->send(m, k % 2 ? 4 : 6); payload[s->full()] += (double) m.data.size(); vx::pump(); } s->sent = true; ts += 40; for (auto &x : l) if (x->full() == s->full() && !x->pub) got[s->full()] += x->c ? 0 : 0; }
    void judge(const Page &g, bool js)
    {
        const char *h = hist.c_str(); if (g.pid != getpid()) vx::fail("%s: pid %ld", h, g.pid); if (base < 0) base = g.naccepted - accepted; if (g.naccepted - base != accepted) vx::fail("%s: %ld connections accepted, the page says %ld", h, accepted, g.naccepted - base);
        for (auto &v : g.srv) { std::map<string, int> seen; for (auto &q : v.second) { string want = js ? q.name : ""; if (seen[q.name]++ > 1) vx::fail("%s: stream %s appears three times", h, q.name.c_str()); } }
        std::map<string, long> tot; size_t streams = 0, have = 0; for (auto &v : g.srv) have += v.second.size();
        for (auto &b : born) {
            streams++; string srv = b.first.substr(0, b.first.find('/')), nm = b.first.substr(b.first.rfind('/') + 1); std::vector<Sess *> in; bool pub = false; Sess *pb = nullptr; for (auto &x : l) if (x->full() == b.first) { in.push_back(x.get()); if (x->pub) { pub = true; pb = x.get(); } }
            const S *q = nullptr; auto it = g.srv.find(srv); if (it != g.srv.end()) for (auto &x : it->second) { if (x.name != (js ? b.first : nm)) continue; bool all = x.c.size() == in.size(); for (auto &c : x.c) { bool f = false; for (auto i : in) f |= i->ip == c.ip && i->pub == c.pub; all &= f; } if (all) q = &x; }
            if (!q) { string z; if (it != g.srv.end()) for (auto &x : it->second) { z += " " + x.name + "("; for (auto &c : x.c) z += c.ip + (c.pub ? "* " : " "); z += ")"; } string w; for (auto i : in) w += i->ip + (i->pub ? "* " : " "); vx::fail("%s: no stream %s with clients %s; the page lists%s", h, b.first.c_str(), w.c_str(), z.c_str()); }
            if (q->time != (long) (vx::now_ms() - b.second)) vx::fail("%s: stream %s exists for %ld ms, the page says %ld", h, b.first.c_str(), (long) (vx::now_ms() - b.second), q->time);
            for (auto &c : q->c) for (auto i : in) if (i->ip == c.ip) { if (c.time != (long) (vx::now_ms() - i->t0)) vx::fail("%s: client %s is there for %ld ms, the page says %ld", h, c.ip.c_str(), (long) (vx::now_ms() - i->t0), c.time); if (js && c.proto != i->proto) vx::fail("%s: client %s speaks %s, the page says %s", h, c.ip.c_str(), i->proto.c_str(), c.proto.c_str()); if (i->proto == "rtmp" && c.flash != "FMLE/3.0") vx::fail("%s: flashver %s", h, c.flash.c_str()); }
            for (size_t i = 0; i < q->c.size(); i++) for (size_t j = 0; j < i; j++) if (q->c[i].id == q->c[j].id) vx::fail("%s: two clients have id %s", h, q->c[i].id.c_str());
            long players = (long) in.size() - (pub && js); if (q->n != players) vx::fail("%s: stream %s has %ld clients, the page says %ld", h, b.first.c_str(), players, q->n); tot[srv] += players; if (q->pub != pub) vx::fail("%s: stream %s %s", h, b.first.c_str(), pub ? "is published" : "is not published");
            if (q->meta && !pub) vx::fail("%s: codecs of a stream that is not published", h); if (pb && pb->sent && (!q->meta || q->vc != "H264" || q->ac != "AAC" || q->prof != "Baseline" || q->aprof != "LC" || q->ch != "2" || q->rate != "44100" || q->w != "640" || q->h != "480" || q->level != "3.0")) vx::fail("%s: stream %s is H264 Baseline 3.0 640x480, AAC LC 44100 2; the page says %s %s %s %sx%s, %s %s %s %s", h, b.first.c_str(), q->vc.c_str(), q->prof.c_str(), q->level.c_str(), q->w.c_str(), q->h.c_str(), q->ac.c_str(), q->aprof.c_str(), q->rate.c_str(), q->ch.c_str());
            if (q->in < payload[b.first] || q->in > payload[b.first] * 1.7 + 2000) vx::fail("%s: stream %s received %.0f bytes of media, the page says %.0f", h, b.first.c_str(), payload[b.first], q->in);
        }
        if (have != streams) vx::fail("%s: %zu streams exist, the page lists %zu", h, streams, have); for (auto &t : g.total) if (t.second != tot[t.first]) vx::fail("%s: server %s has %ld clients, the page says %ld", h, t.first.c_str(), tot[t.first], t.second);
    }
    void check() { for (auto &s : l) if ((s->c ? s->c->c : s->h->c)->closed) vx::fail("%s: %s was disconnected", hist.c_str(), s->ip.c_str()); judge(xmlpage(get("/stat")), false); judge(jsonpage(get("/sys")), true); }
    void end() { while (!l.empty()) { leave(l.back().get(), false); } }
};
static int hist_roots() { return 9 * 9; }
static void hist_run(int root)
{
    vx::batch([&] {
        hist = ""; vx::advance(1000); World w; int n = vx::tier_pick(5, 6);
        auto tog = [&](const string &srv, const string &app, const string &nm, bool pub, const string &proto, const char *what) { Sess *s = w.find(srv + "/" + app + "/" + nm, pub, proto); hist += string(" ") + (s ? "-" : "+") + what; if (s) w.leave(s, hist.size() % 2); else w.join(srv, app, nm, pub, proto); };
        for (int i = 0; i < n; i++) {
            switch (i == 0 ? root % 9 : i == 1 ? root / 9 : vx::choose(9)) {
            case 0: tog("a", "live", "s", true, "rtmp", "pub"); break;
            case 1: tog("a", "live", "s", false, "rtmp", "play"); break;
            case 2: tog("a", "live", "s", false, "http-flv", "flv"); break;
            case 3: tog("a", "live", "s", false, "http-ts", "ts"); break;
            case 4: { Sess *s = w.find("a/live/s", true, "rtmp"); if (!s) s = w.find("a/lives/s", true, "rtmp"); if (!s) { hist += " no-frames"; break; } hist += " frames"; w.frames(s); break; }
            case 5: tog("a", "lives", "s", true, "rtmp", "pub-in-other-application"); break;
            case 6: tog("b", "live", "s", true, "rtmp", "pub-on-other-server"); break;
            case 7: hist += " time"; vx::advance(1500); break;
            case 8: tog("a", "live", "s2", false, "rtmp", "play-s2"); break;
            }
            w.check();
        }
        vx::note("%s", hist.c_str()); w.end(); hist += " all-leave"; w.check(); vx::observe_u64(w.accepted);
    });
}
// ---- what the headers say
static string avcc(const string &sps, int prof, int level) { return string("\x17\x00\x00\x00\x00\x01", 6) + (char) prof + (char) (prof == 66 ? 0xc0 : 0) + (char) level + "\xff\xe1" + be(sps.size(), 2) + sps + string("\x01\x00\x04\x68\xce\x3c\x80", 7); }
struct Hevc { int cf = 1, sub = 0, flags = 0, win = 0; long w = 1920, h = 1088; int l, r, t, b; };
static string hevcsps(const Hevc &a)
{
    Bits x; x.u(0, 4); x.u(a.sub, 3); x.u(1, 1); x.u(1, 8); x.u(0x60000000, 32); x.u(0x9000, 16); x.u(0, 32); x.u(93, 8); 
    for (int i = 0; i < a.sub; i++) { x.u(a.flags & 1, 1); x.u(a.flags >> 1 & 1, 1); } if (a.sub) for (int i = a.sub; i < 8; i++) x.u(0, 2); for (int i = 0; i < a.sub; i++) { if (a.flags & 1) { x.u(1, 8); x.u(0x60000000, 32); x.u(0, 48); } if (a.flags & 2) x.u(60, 8); }
    x.ue(0); x.ue(a.cf); if (a.cf == 3) x.u(0, 1); x.ue(a.w); x.ue(a.h); x.u(a.win, 1); if (a.win) { x.ue(a.l); x.ue(a.r); x.ue(a.t); x.ue(a.b); } x.ue(0); x.ue(0); x.trail(); return string("\x42\x01", 2) + ebsp(x.s);
}
static string hvcc(const string &sps) { string s = string("\x1c\x00\x00\x00\x00\x01\x01\x60\x00\x00\x00\x90\x00\x00\x00\x00\x00\x5d", 18) + string("\xf0\x00\xfc\xfd\xf8\xf8\x00\x00\x0f\x03", 10); string n[] = { string("\x40\x01\x0c\x01\xff\xff", 6), sps, string("\x44\x01\xc1\x73", 4) }; for (int i = 0; i < 3; i++) s += string(1, (char) (0xa0 | i)) + be(1, 2) + be(n[i].size(), 2) + n[i]; return s; }
static S ask(Client &p) { (void) p; Page x = xmlpage(get("/stat")), j = jsonpage(get("/sys")); for (auto *g : { &x, &j }) { if (g->srv["a"].size() != 1) vx::fail("%s: %zu streams", hist.c_str(), g->srv["a"].size()); if (!g->srv["a"][0].meta) vx::fail("%s: no codecs", hist.c_str()); } S &a = x.srv["a"][0], &b = j.srv["a"][0]; if (a.w != b.w || a.h != b.h || a.vc != b.vc || a.prof != b.prof || a.level != b.level || a.ac != b.ac || a.aprof != b.aprof || a.ch != b.ch || a.rate != b.rate) vx::fail("%s: the pages differ: %sx%s %s %s %s, %sx%s %s %s %s", hist.c_str(), a.w.c_str(), a.h.c_str(), a.vc.c_str(), a.prof.c_str(), a.level.c_str(), b.w.c_str(), b.h.c_str(), b.vc.c_str(), b.prof.c_str(), b.level.c_str()); return a; }
static int codec_roots() { return 4; }
static void codec_run(int root)
{
    hist = "publisher"; Client p; p.name = "publisher"; if (!p.publisher("s", "live")) vx::fail("publisher"); uint64_t n = 0;
    auto vid = [&](const string &hd, const string &what, long w, long h, const string &codec, const string &prof, const string &level) { for (int chunk : { 65536, 128, 5 }) { hist = what + ", in chunks of " + std::to_string(chunk); p.set_chunk(chunk); p.send(video(0, hd), 6); vx::pump(); if (p.c->closed) vx::fail("%s: disconnected", hist.c_str()); S s = ask(p); if (s.w != std::to_string(w) || s.h != std::to_string(h)) vx::fail("%s: %ldx%ld, the page says %sx%s", hist.c_str(), w, h, s.w.c_str(), s.h.c_str()); if ((s.vc != codec && codec != "H265") || (codec == "H265" && ((!s.vc.empty() && s.vc != codec) || !s.prof.empty() || !s.level.empty())) || (!prof.empty() && s.prof != prof) || (!level.empty() && s.level != level)) vx::fail("%s: %s %s %s, the page says %s %s %s", hist.c_str(), codec.c_str(), prof.c_str(), level.c_str(), s.vc.c_str(), s.prof.c_str(), s.level.c_str()); n++; } };
    static const long MW[] = { 1, 11, 40, 120, 255, 256, 1024 };
    if (root <= 1) for (int prof : { 66, 77, 100, 110, 122, 244 }) for (int cf : { 1, 0, 2, 3 }) { if (prof < 100 && cf != 1) continue; for (int scaling = 0; scaling < 4; scaling++) { if (scaling && prof < 100) continue; for (int poc = 0; poc < 3; poc++) for (int fmo = 0; fmo < 2; fmo++) for (int crop = 0; crop < 3; crop++) {
        int k = (poc + crop) % 2; if (k != root) continue; Avc a; a.prof = prof; a.cf = cf; a.scaling = scaling; a.poc = poc; a.fmo = fmo; a.level = poc == 0 ? 30 : poc == 1 ? 41 : 9; a.mbw = MW[n % 7]; a.mbh = 2 + MW[(n / 7) % 7]; a.refs = poc == 0 ? 4 : 0; a.crop = crop > 0; a.l = crop == 2; a.r = crop ? 2 : 0; a.t = crop == 2 ? 2 : 0; a.b = crop ? 1 : 0;
        int cx = cf == 1 || cf == 2 ? 2 : 1, cy = (cf == 1 ? 2 : 1) * (2 - fmo); long w = a.mbw * 16 - (crop ? cx * (a.l + a.r) : 0), h = (2 - fmo) * a.mbh * 16 - (crop ? cy * (a.t + a.b) : 0); char lv[10]; snprintf(lv, sizeof lv, "%d.%d", a.level / 10, a.level % 10);
        vid(avcc(avcsps(a), prof, a.level), "AVC profile " + std::to_string(prof) + ", chroma format " + std::to_string(cf) + ", scaling " + std::to_string(scaling) + ", order type " + std::to_string(poc) + (fmo ? "" : ", fields") + (crop ? ", cropped" : "") + ", " + std::to_string(a.mbw) + "x" + std::to_string(a.mbh) + " macroblocks", w, h, "H264", prof == 66 ? "Baseline" : prof == 77 ? "Main" : prof == 100 ? "High" : "", lv); } } }
    if (root == 2) { p.send(video(0, avc_seq()), 6); vx::pump(); }
    if (root == 2) for (int cf = 0; cf < 4; cf++) for (int sub = 0; sub < 7; sub++) for (int fl = 0; fl < (sub ? 4 : 1); fl++) for (int win = 0; win < 3; win++) { Hevc a; a.cf = cf; a.sub = sub; a.flags = fl; a.win = win > 0; a.w = MW[n % 7] * 16; a.h = 32 + MW[n / 7 % 7] * 8; a.l = win == 2 ? 3 : 0; a.r = win == 2 ? 1 : 0; a.t = win == 2 ? 2 : 0; a.b = win ? 4 : 0; int cx = cf == 1 || cf == 2 ? 2 : 1, cy = cf == 1 ? 2 : 1; if (a.w < 16) continue;
        vid(hvcc(hevcsps(a)), "HEVC chroma format " + std::to_string(cf) + ", " + std::to_string(sub) + " sub layers " + std::to_string(fl) + (win ? ", window" : "") + ", " + std::to_string(a.w) + "x" + std::to_string(a.h), a.w - (win ? cx * (a.l + a.r) : 0), a.h - (win ? cy * (a.t + a.b) : 0), "H265", "", ""); }
    static const long HZ[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
    static const long EX[] = { 37800, 1, 65536, 192000, 16777215 }; // rates in figures
    if (root == 3) for (int chunk : { 65536, 4, 3 }) for (int obj : { 2, 1, 3, 4, 5, 29, 2, 42 }) for (int sr : { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 19 }) for (int ch = 1; ch < 8; ch++) {
        Bits x; auto o = [&](int t) { if (t < 31) x.u(t, 5); else { x.u(31, 5); x.u(t - 32, 6); } }; auto f = [&](int i) { x.u(std::min(i, 15), 4); if (i >= 15) x.u(EX[i - 15], 24); }; o(obj); f(sr); x.u(ch, 4); int er = sr; if (obj == 5 || obj == 29) { er = sr > 3 && sr < 13 ? sr - 3 : sr; f(er); o(2); } x.u(0, 3); x.trail(); hist = "AAC object " + std::to_string(obj) + ", rate index " + std::to_string(sr) + ", " + std::to_string(ch) + " channels"; hist += ", in chunks of " + std::to_string(chunk); p.set_chunk(chunk); p.send(audio(0, string("\xaf\x00", 2) + x.s), 4); vx::pump(); S s = ask(p); long hz = er >= 15 ? EX[er - 15] : HZ[er];
        string pr = obj == 1 ? "Main" : obj == 2 ? "LC" : obj == 3 ? "SSR" : obj == 4 ? "LTP" : obj == 5 ? "HE" : obj == 29 ? "HEv2" : ""; if (s.ac != "AAC" || s.aprof != pr || s.ch != std::to_string(ch) || s.rate != std::to_string(hz)) vx::fail("%s (%s, %ld Hz): the page says %s %s, %s Hz, %s channels", hist.c_str(), pr.c_str(), hz, s.ac.c_str(), s.aprof.c_str(), s.rate.c_str(), s.ch.c_str()); n++; }
    vx::count(n, n, n); vx::note("%llu headers", (unsigned long long) n); p.c->fin(); vx::pump();
}
// ---- texts clients choose
static const char AL[] = { 'a', '<', '&', '"', '>', '\x81', '\x01', '\'', '\\', '\xc3', '\xa4', '{' };
static int text_roots() { return 12 * 2; }
static void text_run(int root)
{
    int kind = root / 12; // 0 stream name, 1 texts of connect and host
    vx::batch([&] {
        string t(1, AL[root % 12]); int n = vx::choose(4); for (int i = 0; i < n; i++) t += AL[vx::choose(12)]; if (n == 3 && t == string(4, AL[root % 12])) { string f; for (int i = 0; i < 50; i++) f += t; t = f; } hist = "text '" + t + "'";
        Client p; p.name = "publisher"; p.open(kind ? "1937" : "1935"); if (!p.handshake()) vx::fail("handshake"); string host = "h"; for (char c : t) if (c != '/' && c != ':' && c != '?') host += c; 
        p.cmd("connect", { Obj({ { "app", Str("live") }, { "flashVer", Str(kind ? t : "f") }, { "swfUrl", Str(kind ? t + "s" : "s") }, { "pageUrl", Str(kind ? t + "p" : "p") }, { "tcUrl", Str("rtmp://" + (kind ? host : string("h")) + "/live") } }) }); vx::pump(); p.create_stream(); p.publish(kind ? "s" : "n" + t); vx::pump(); if (!p.saw_code("NetStream.Publish.Start")) { p.c->fin(); vx::pump(); return; }
        auto clean = [](const string &s) { string o; for (char c : s) o += (unsigned char) c < 0x20 || (unsigned char) c >= 0x7f ? ' ' : c; return o; }; string xs = get("/stat"), js = get("/sys"); Page g = xmlpage(xs), j = jsonpage(js); S *q = nullptr; for (auto &v : g.srv) for (auto &s : v.second) q = &s; if (!q || q->c.size() != 1) vx::fail("%s: no stream or client", hist.c_str());
        if (!kind && q->name != clean("n" + t)) vx::fail("%s: the page says '%s'", hist.c_str(), q->name.c_str()); if (kind && (q->c[0].flash != clean(t) || q->c[0].swf != clean(t + "s") || q->c[0].page != clean(t + "p"))) vx::fail("%s: the page says '%s' '%s' '%s'", hist.c_str(), q->c[0].flash.c_str(), q->c[0].swf.c_str(), q->c[0].page.c_str()); 
        p.c->fin(); vx::pump(); 
        if (kind) { S *z = nullptr; for (auto &v : j.srv) for (auto &y : v.second) z = &y; bool ascii = true; for (char c : t) if (c & 0x80) ascii = false; if (!z || z->c.size() != 1) vx::fail("%s: sys_stat has no stream or client", hist.c_str()); if (ascii && (z->c[0].flash != t || z->c[0].swf != t + "s" || z->c[0].page != t + "p")) vx::fail("%s: sys_stat says '%s' '%s' '%s'", hist.c_str(), z->c[0].flash.c_str(), z->c[0].swf.c_str(), z->c[0].page.c_str()); }
        vx::observe_u64(q->name.size());
    });
}
// ---- requests
static int req_roots() { return 3; }
static void req_run(int root)
{
    hist = "requests"; std::vector<std::unique_ptr<Client>> l; int N = 60;
    if (root == 0) { for (const char *u : { "/stat", "/glob", "/sys" }) for (const char *v : { "1.1", "1.0" }) { for (const char *m : { "GET", "HEAD", "POST" }) { hist = string(m) + " " + u + " HTTP/" + v; string b = get(u, string(m) == "POST" ? "Content-Length: 5\r\n\r\nab" : "", m, v); vx::count(1, 1, 1); (void) b; } } }
    // two requests on one connection
    for (const char *u : { "/stat", "/sys", "/glob" }) { Http h; h.open(); string r = Http::req(u); h.c->send(r); vx::pump(); h.name = string("first request of ") + u; h.check(); if (h.status != 200 || !h.complete) vx::fail("%s: status %d, %zu bytes, incomplete", h.name.c_str(), h.status, h.body.size()); Http k; k.c = h.c; k.name = string("second request of ") + u; h.c->send(r); vx::pump(); k.check(); if (k.status != 200 || !k.complete) vx::fail("%s: status %d", k.name.c_str(), k.status); h.c->fin(); vx::pump(); }
    for (int i = 0; i < N; i++) { l.emplace_back(new Client); if (!l.back()->publisher("s" + std::to_string(i), "live")) vx::fail("publisher"); l.back()->send(video(0, avc_seq()), 6); vx::pump(); if (root == 1) { hist = std::to_string(i) + " streams"; Page g = xmlpage(get("/stat")), j = jsonpage(get("/sys")); if (g.srv["a"].size() != (size_t) i + 1 || j.srv["a"].size() != (size_t) i + 1) vx::fail("%s: the page lists %zu", hist.c_str(), g.srv["a"].size()); std::map<string, int> k; for (auto &s : g.srv["a"]) k[s.name]++; if (k.size() != (size_t) i + 1) vx::fail("%s: names are repeated", hist.c_str()); } }
    // a slow reader
    for (const char *u : { "/stat", "/sys" }) { string want = get(u); for (long win : { 0l, 1l, 100l, 255l, 256l, 257l, 1000l }) { Http h; h.name = string("slow reader of ") + u; h.open(); h.c->win = win; h.c->send(Http::req(u)); vx::pump(); if (root == 2) { for (int i = 0; i < 5; i++) { l[(size_t) i]->c->fin(); vx::pump(); } } for (int i = 0; i < 4000 && !h.complete; i++) { h.c->open_window(win > 500 ? 50 : 997); vx::pump(); h.collect(); } h.check(); if (h.status != 200 || !h.complete || labs((long) h.body.size() - (long) want.size()) > 200) vx::fail("%s: status %d, %zu of %zu bytes", h.name.c_str(), h.status, h.body.size(), want.size()); if (*(u + 2) == 't') xmlpage(h.body); else jsonpage(h.body); h.c->fin(); vx::pump(); if (root == 2) for (int i = 0; i < 5; i++) { l[(size_t) i].reset(new Client); l[(size_t) i]->publisher("s" + std::to_string(i), "live"); l[(size_t) i]->send(video(0, avc_seq()), 6); vx::pump(); } } }
    // any number of requests
    for (const char *u : { "/stat", "/sys" }) { for (int i = 0; i < 40; i++) get(u); malloc_trim(0); size_t a = mallinfo2().uordblks; for (int i = 0; i < 200; i++) get(u); size_t b = mallinfo2().uordblks; if (b > a + 200 * 100) vx::fail("200 requests of %s keep %zu bytes", u, b - a); }
    for (auto &p : l) { p->c->fin(); vx::pump(); } vx::note("requests %d", root);
}
VX_SCENARIOS(
    { "hist", hist_roots, hist_run, "every sequence of 5 (6) of 9 events: publisher, RTMP, HTTP-FLV and HTTP-TS player of a stream come or go, frames, publishers of the same name in another application and server, player of another stream, time; both pages are read after each" },
    { "codec", codec_roots, codec_run, "AVC headers of 6 profiles x 4 chroma formats x 4 scaling matrices x 3 picture order types x frames, fields x 3 croppings; HEVC headers of 4 chroma formats x 0-6 sub layers x 3 windows; AAC headers of 7 objects x 18 rates x 7 channel configurations" },
    { "text", text_roots, text_run, "every stream name, and flashVer, swfUrl, pageUrl, host of up to 4 characters over 12 special ones, and of 200 characters" },
    { "req", req_roots, req_run, "3 pages x 3 methods x 2 versions, requests in a row, 1-60 streams, slow readers of 7 kinds, 240 requests in a row" }
)
