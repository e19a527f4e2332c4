// P27: the control interface does what it was told to whom it was told.
#include "tree.h"
#include "http.h"
#include "rtmp.h"
#include "flv.h"
#include "ts.h"
#include <memory>
#include <algorithm>
using namespace rt;
static string hist;
static int ask(const string &path, string *body = nullptr) { Http h; h.name = hist + ": GET " + path; h.open("80", "10.9.9.9"); h.c->send(Http::req(path, "1.1", "GET", "Connection: close\r\n")); vx::pump(); h.check(); if (!h.head || !h.c->closed || !h.complete) vx::fail("%s: no complete answer", h.name.c_str()); if (body) *body = h.body; return h.status; }
static void tok(const string &d, std::vector<string> &v) { for (size_t p = 0; (p = d.find("{", p)) != string::npos;) { size_t e = d.find("}", p); if (e == string::npos) break; v.push_back(d.substr(p + 1, e - p - 1)); p = e; } }
static std::vector<string> flvtok(const string &b, const string &who) { std::vector<string> v; FlvFile f = flv_parse(b); if (!f.ok || f.rest) vx::fail("%s: %s: no FLV: %s, %zu bytes left", hist.c_str(), who.c_str(), f.err.c_str(), f.rest); for (auto &m : f.tags) if (m.type == 8 || m.type == 9) tok(m.data, v); return v; }
static std::vector<string> tstok(const string &b, const string &who) { std::vector<string> v; if (b.empty()) return v; TsFile f = ts_parse(b, nullptr, false); if (!f.ok) vx::fail("%s: %s: no transport stream: %s", hist.c_str(), who.c_str(), f.err.c_str()); for (auto &p : f.pes) tok(p.data, v); return v; }
static string show(const std::vector<string> &v) { string s; for (auto &x : v) s += x + " "; return s; }
struct Ses {
    string srv, app, name, proto, ip; bool pub; std::unique_ptr<Client> c; std::unique_ptr<Http> h;
    bool up() { if (c) return !c->c->closed; if (!h || h->c->closed) return false; h->check(); return !h->complete; }
    void close() { auto &k = c ? c->c : h->c; if (!k->closed) { k->fin(); vx::pump(); } }
    string who() const { return srv + "/" + app + "/" + name + " " + (pub ? "publisher" : proto + " player") + " " + ip; }
    bool start() { if (h) close(); c.reset(); h.reset(); string port = srv == "a" ? "1935" : "1936"; if (proto == "rtmp") { c.reset(new Client); c->name = who(); if (!(pub ? c->publisher(name, app, port, ip) : c->player(name, app, port, ip))) return false; if (pub) { c->send(video(0, avc_seq()), 6); c->send(audio(0, aac_seq()), 4); vx::pump(); } return true; }
        h.reset(new Http); h->name = who(); h->open("80", ip); h->c->send(Http::req("/" + (proto == "flv" ? string("f") : string("t")) + srv + "/" + name + (proto == "flv" ? ".flv" : ".ts") + "?app=" + app)); vx::pump(); return up(); }
    std::vector<string> got() { std::vector<string> v; if (c) { for (auto &m : c->av()) tok(m.data, v); return v; } h->check(); if (h->head && h->status != 200) vx::fail("%s: %s: status %d", hist.c_str(), who().c_str(), h->status); return proto == "flv" ? flvtok(h->all(), who()) : tstok(h->all(), who()); }
};
// ---- whom
static int select_roots() { return 2 * 3 * 3; }
static void select_run(int root)
{
    static const char *F[] = { "publisher", "subscriber", "client" }; bool pause = root % 2; int filt = root / 2 % 3, si = root / 6; if (pause && filt) return;
    std::vector<std::unique_ptr<Ses>> l; uint32_t ts = 1000; int serial = 0;
    for (const char *s : { "a", "b" }) for (const char *a : { "live", "lives" }) for (const char *n : { "s", "s2" }) for (int k = 0; k < 4; k++) { l.emplace_back(new Ses); auto &x = *l.back(); x.srv = s; x.app = a; x.name = n; x.pub = k == 0; x.proto = k < 2 ? "rtmp" : k == 2 ? "flv" : "ts"; x.ip = k == 0 ? "10.0.0.1" : k == 1 ? "10.0.0.10" : k == 2 ? "10.0.0.1" : "10.0.0.2"; }
    hist = "start"; for (auto &x : l) if (!x->start()) vx::fail("%s refused", x->who().c_str());
    auto ids = [&] { string b; if (ask("/sys", &b) != 200) vx::fail("sys_stat"); auto d = json(b); if (!d->err.empty()) vx::fail("sys_stat: %s", d->err.c_str()); std::map<const Ses *, string> m; for (auto &s : d->get("live_stream")->get("server_array")->kids) for (auto &t : s->get("stream_array")->kids) for (auto &c : t->get("client_array")->kids) for (auto &x : l) if (t->val("name") == x->srv + "/" + x->app + "/" + x->name && c->val("remote_address") == x->ip && (c->val("publishing") == "true") == x->pub) m[x.get()] = c->val("id"); return m; };
    static const char *SRV[] = { "a", "b", "c" }, *APP[] = { "-", "", "live", "lives", "liv", "livesx" }, *NM[] = { "-", "", "s", "s2", "s22" }, *AD[] = { "-", "10.0.0.1", "10.0.0.10", "10.0.0.100" }; uint64_t n = 0;
    for (int ai = 0; ai < 6; ai++) for (int ni = 0; ni < 5; ni++) for (int di = 0; di < 4; di++) for (int ci = 0; ci < 4; ci++) for (int order = 0; order < (ci ? 1 : 2); order++) {
        auto id = ids(); if (id.size() != l.size()) vx::fail("%s: the page lists %zu of %zu clients", hist.c_str(), id.size(), l.size());
        string cid = ci == 0 ? "-" : ci == 1 ? id[l[0].get()] : ci == 2 ? id[l[21].get()] : "999999999"; std::vector<string> arg = { string("srv=") + SRV[si] };
        if (*APP[ai] != '-') arg.push_back(string("app=") + APP[ai]); if (*NM[ni] != '-') arg.push_back(string("name=") + NM[ni]); if (*AD[di] != '-') arg.push_back(string("addr=") + AD[di]); if (ci) arg.push_back("clientid=" + cid);
        if (order) std::reverse(arg.begin(), arg.end()); string q; for (auto &x : arg) q += (q.empty() ? "?" : "&") + x;
        string what = string(pause ? "pause" : "drop") + "/" + F[filt] + q; hist = what;
        auto sel = [&](const Ses &x) { if (x.srv != SRV[si]) return false; if (*APP[ai] && *APP[ai] != '-' && x.app != APP[ai]) return false; if (*NM[ni] && *NM[ni] != '-' && x.name != NM[ni]) return false; if (*AD[di] != '-' && x.ip != AD[di]) return false; if (ci && id[&x] != cid) return false; return filt == 2 || x.pub == (filt == 0); };
        string b; int st = ask("/control/" + what, &b); size_t want = 0; for (auto &x : l) want += sel(*x); if (st != 200 || b != std::to_string(want)) vx::fail("%s: %zu sessions, the answer is %d '%s'", hist.c_str(), want, st, b.c_str());
        for (auto &x : l) { bool gone = sel(*x) && !pause; if (x->up() == gone) vx::fail("%s: %s is %s", hist.c_str(), x->who().c_str(), gone ? "still there" : "gone"); }
        // those who stay go on
        ts += 40; serial++; string t = "K" + std::to_string(serial); std::map<string, bool> run; for (auto &x : l) if (x->pub && x->up()) { run[x->srv + x->app + x->name] = !sel(*x); x->c->send(video(ts, avc_key("{" + t + "}")), 6); } vx::pump();
        if (n % 8 == 0 || want) for (auto &x : l) if (!x->pub && x->up() && x->proto != "ts") { auto v = x->got(); bool has = !v.empty() && v.back() == t; auto r = run.find(x->srv + x->app + x->name); bool exp = r != run.end() && r->second; if (has != exp) vx::fail("%s: %s %s the next frame", hist.c_str(), x->who().c_str(), has ? "received" : "did not receive"); }
        if (pause) { string c; int s2 = ask("/control/resume/" + string(F[filt]) + q, &c); if (s2 != 200 || c != b) vx::fail("%s: resume: %d '%s'", hist.c_str(), s2, c.c_str()); }
        for (auto &x : l) if (!x->up() && !x->start()) vx::fail("%s: %s refused afterwards", hist.c_str(), x->who().c_str());
        if (n % 64 == 63) for (auto &x : l) { x->close(); if (!x->start()) vx::fail("%s: %s refused afterwards", hist.c_str(), x->who().c_str()); }
        n++;
    }
    // what is no order changes nothing
    for (const char *u : { "/control/drop/publisher", "/control/drop/publishers?srv=a", "/control/drop/pub?srv=a", "/control/drop/client2?srv=a", "/control/drop/?srv=a", "/control/drop?srv=a", "/control/dro/client?srv=a", "/control/drops/client?srv=a", "/control/?srv=a", "/droponly/pause/client?srv=a", "/droponly/redirect/client?srv=a&newname=x", "/droponly/record/stop?srv=a", "/control/record/sta?srv=a", "/control/redirect/client?srv=a" }) { hist = u; int st = ask(u); if (st < 400) vx::fail("%s: status %d", u, st); for (auto &x : l) if (!x->up()) vx::fail("%s: %s is gone", u, x->who().c_str()); }
    for (auto &x : l) x->close(); vx::count(n, n, n); vx::note("%llu orders", (unsigned long long) n);
}
// ---- pause and resume
static int pause_roots() { return 9 * 9; }
static void pause_run(int root)
{
    vx::batch([&] {
        hist = ""; int n = vx::tier_pick(5, 6); std::vector<std::unique_ptr<Ses>> l; auto add = [&](bool pub, const char *proto) { l.emplace_back(new Ses); auto &x = *l.back(); x.srv = "a"; x.app = "rec"; x.name = "s"; x.pub = pub; x.proto = proto; x.ip = "10.0.0." + std::to_string(l.size()); hist += pub ? string("publisher") : string(" +") + proto; if (!x.start()) vx::fail("%s: refused", hist.c_str()); };
        add(true, "rtmp"); struct St { bool started = false; std::vector<string> must, may; }; std::vector<St> st(2); std::vector<St> &S = st; int run = 2; uint32_t ts = 0; int serial = 0; std::vector<string> aud; // S[0] recording
        auto frame = [&](char k) { string t = k + std::to_string(++serial); ts += 40; hist += " " + t; Client &p = *l[0]->c; if (k == 'A') p.send(audio(ts, aac_raw("{" + t + "}")), 4); else p.send(video(ts, k == 'K' ? avc_key("{" + t + "}") : avc_inter("{" + t + "}", 0)), 6); vx::pump(); if (k == 'K' && run == 1) run = 2; for (size_t i = 0; i < S.size(); i++) { if (i == 1) continue; if (run != 2) continue; if (k == 'K') S[i].started = true; if (i == 0 && k == 'A') aud.push_back(t); if (S[i].started) S[i].must.push_back(t); else if (k == 'A') S[i].may.push_back(t); } };
        
        for (int i = 0; i < n; i++) switch (i == 0 ? root % 9 : i == 1 ? root / 9 : vx::choose(9)) {
            case 0: hist += " pause"; { string b; if (ask("/control/pause/publisher?srv=a&app=rec&name=s", &b) != 200 || b != "1") vx::fail("%s: '%s'", hist.c_str(), b.c_str()); } run = 0; break;
            case 1: hist += " resume"; { string b; if (ask("/control/resume/publisher?srv=a&app=rec&name=s", &b) != 200 || b != "1") vx::fail("%s: '%s'", hist.c_str(), b.c_str()); } if (run == 0) run = 1; break;
            case 2: frame('K'); break;
            case 3: frame('I'); break;
            case 4: frame('A'); break;
            case 5: add(false, "rtmp"); S.emplace_back(); break;
            case 6: add(false, "flv"); S.emplace_back(); break;
            case 7: add(false, "ts"); S.emplace_back(); S.back().may = aud; /* audio frames are collected */ break;
            case 8: frame('K'); frame('I'); frame('A'); break;
        }
        if (run == 2) { frame('K'); } // flushes what is kept for the last one
        auto cmp = [&](const std::vector<string> &got, const St &s, const string &who) { size_t j = 0; for (auto &g : got) { if (j < s.must.size() && g == s.must[j]) { j++; continue; } if (j == 0 && std::find(s.may.begin(), s.may.end(), g) != s.may.end()) continue; vx::fail("%s: %s received %s, not %s", hist.c_str(), who.c_str(), show(got).c_str(), show(s.must).c_str()); } if (j < s.must.size()) vx::fail("%s: %s received %s of %s", hist.c_str(), who.c_str(), show(got).c_str(), show(s.must).c_str()); };
        for (size_t i = 1; i < l.size(); i++) { if (!l[i]->up()) vx::fail("%s: %s is gone", hist.c_str(), l[i]->who().c_str()); St s = S[i + 1]; auto got = l[i]->got(); if (l[i]->proto == "ts") { auto key = [](const string &x) { return x[0] == 'A'; }; St v = s; std::vector<string> gv, ga, mv, ma; for (auto &g : got) (key(g) ? ga : gv).push_back(g); for (auto &g : s.must) (key(g) ? ma : mv).push_back(g); v.must = mv; cmp(gv, v, l[i]->who()); while (!ma.empty() && std::find(ga.begin(), ga.end(), ma.back()) == ga.end()) ma.pop_back(); /* audio frames are collected */ v.must = ma; cmp(ga, v, l[i]->who()); } else cmp(got, s, l[i]->who()); }
        for (auto &x : l) x->close(); string f = vx::fs_exists("/vxfs/rec/s.flv") ? vx::fs_read("/vxfs/rec/s.flv") : ""; if (!f.empty()) vx::fs_unlink("/vxfs/rec/s.flv"); cmp(flvtok(f, "recording"), S[0], "the recording"); vx::note("%s", hist.c_str()); vx::observe_u64(S[0].must.size());
    });
}
// ---- recording
static int record_roots() { return 6 * 6; }
static void record_run(int root)
{
    vx::batch([&] {
        hist = "publisher"; int n = vx::tier_pick(6, 7); Ses p; p.srv = "a"; p.app = "man"; p.name = "s"; p.proto = "rtmp"; p.pub = true; p.ip = "10.0.0.1"; if (!p.start()) vx::fail("refused"); for (auto &f : vx::fs_list("/vxfs/rec/")) vx::fs_unlink(f); vx::advance(1000);
        bool on = false, live = true; std::vector<std::vector<string>> files; bool key = false; uint32_t ts = 0; int serial = 0;
        auto frame = [&](char k) { string t = k + std::to_string(++serial); ts += 40; hist += " " + t; if (k == 'A') p.c->send(audio(ts, aac_raw("{" + t + "}")), 4); else p.c->send(video(ts, k == 'K' ? avc_key("{" + t + "}") : avc_inter("{" + t + "}", 0)), 6); vx::pump(); if (on && k == 'K') key = true; if (on && key) files.back().push_back(t); };
        auto order = [&](const char *m, bool other = false) { hist += string(" ") + m; string b; int st = ask(string("/control/record/") + m + "?srv=a&app=man&name=" + (other ? "x" : "s"), &b); if (st != 200 || b != "ok\n") vx::fail("%s: %d '%s'", hist.c_str(), st, b.c_str()); };
        for (int i = 0; i < n; i++) { switch (i == 0 ? root % 6 : i == 1 ? root / 6 : vx::choose(6)) {
            case 0: order("start"); if (!on && live) { on = true; key = false; files.emplace_back(); } break;
            case 1: order("stop"); on = false; break;
            case 2: if (live) frame('K'); break;
            case 3: if (live) frame('I'); break;
            case 4: if (live) frame('A'); break;
            case 5: if (live) { hist += " leaves"; p.close(); live = on = false; } else { hist += " publishes"; if (!p.start()) vx::fail("%s: refused", hist.c_str()); live = true; } break;
            } vx::advance(1000); }
        p.close(); std::vector<std::vector<string>> got; for (auto &f : vx::fs_list("/vxfs/rec/")) { auto t = flvtok(vx::fs_read(f), f); if (!t.empty()) got.push_back(t); vx::fs_unlink(f); } std::vector<std::vector<string>> want; for (auto &f : files) if (!f.empty()) want.push_back(f); string a, b;
        // audio before the first key frame may be there
        auto strip = [](std::vector<string> v) { while (!v.empty() && v[0][0] == 'A') v.erase(v.begin()); return v; }; for (auto &v : got) a += "| " + show(strip(v)); for (auto &v : want) b += "| " + show(strip(v)); if (a != b) vx::fail("%s: recorded %s, not %s", hist.c_str(), a.c_str(), b.c_str()); vx::note("%s: %s", hist.c_str(), a.c_str()); vx::observe_u64(want.size());
    });
}
// ---- redirect
static int redirect_roots() { return 10 * 10; }
static void redirect_run(int root)
{
    vx::batch([&] {
        hist = ""; int n = vx::tier_pick(5, 6); struct X { std::unique_ptr<Ses> s; string at; bool started = false, lax = false; /* an HTTP-TS player does not wait for a key frame after its publisher moved: inter frames are not judged */ std::vector<string> must; }; std::vector<X> l; uint32_t ts = 0; int serial = 0;
        auto add = [&](bool pub, const char *proto, const char *nm) { X x; x.s.reset(new Ses); x.s->srv = "a"; x.s->app = "live"; x.s->name = x.at = nm; x.s->pub = pub; x.s->proto = proto; x.s->ip = "10.0.0." + std::to_string(l.size() + 1); hist += string(" ") + (pub ? "publisher of " : "player of ") + nm; if (!x.s->start()) vx::fail("%s: refused", hist.c_str()); l.push_back(std::move(x)); };
        auto frame = [&](char k) { string t = k + std::to_string(++serial); ts += 40; hist += " " + t; l[0].s->c->send(video(ts, k == 'K' ? avc_key("{" + t + "}") : avc_inter("{" + t + "}", 0)), 6); vx::pump(); for (auto &x : l) if (!x.s->pub && x.at == l[0].at) { if (k == 'K') x.started = true; if (x.started) x.must.push_back(t); } };
        auto redir = [&](const char *f, const char *from, const char *to) { hist += string(" redirect ") + f + " " + from + ">" + to; size_t c = 0; for (auto &x : l) c += x.at == from && x.s->pub == (*f == 'p'); string b; int st = ask(string("/control/redirect/") + f + "?srv=a&app=live&name=" + from + "&newname=" + to, &b); if (st != 200 || b != std::to_string(c)) vx::fail("%s: %d '%s' for %zu", hist.c_str(), st, b.c_str(), c); for (auto &x : l) if (x.at == from && x.s->pub == (*f == 'p')) { x.at = to; x.started = false; } if (*f == 'p' && c) for (auto &x : l) { x.started = false; x.lax = x.s->proto == "ts"; } };
        add(true, "rtmp", "s"); frame('K');
        for (int i = 0; i < n; i++) switch (i == 0 ? root % 10 : i == 1 ? root / 10 : vx::choose(10)) {
            case 0: redir("publisher", "s", "t"); break;
            case 1: redir("publisher", "t", "s"); break;
            case 2: redir("subscriber", "s", "t"); break;
            case 3: redir("subscriber", "t", "s"); break;
            case 4: frame('K'); break;
            case 5: frame('I'); break;
            case 6: add(false, "rtmp", "s"); break;
            case 7: add(false, "rtmp", "t"); break;
            case 8: add(false, "flv", "s"); break;
            case 9: add(false, "ts", "s"); break;
        }
        frame('K');
        for (auto &x : l) { if (!x.s->up()) vx::fail("%s: %s is gone", hist.c_str(), x.s->who().c_str()); if (!x.s->pub) { auto g = x.s->got(); if (x.lax) for (auto v : { &g, &x.must }) v->erase(std::remove_if(v->begin(), v->end(), [](const string &t) { return t[0] == 'I'; }), v->end()); if (g != x.must) vx::fail("%s: %s received %s, not %s", hist.c_str(), x.s->who().c_str(), show(g).c_str(), show(x.must).c_str()); } } for (auto &x : l) x.s->close(); vx::note("%s", hist.c_str()); vx::observe_u64(l.size());
    });
}
VX_SCENARIOS(
    { "select", select_roots, select_run, "32 sessions on 2 servers x 2 applications x 2 streams x {publisher, RTMP, HTTP-FLV, HTTP-TS player}: drop of 3 kinds and pause and resume of publishers, each with 3 servers x 6 applications x 5 names x 4 addresses x 4 client numbers, arguments in both orders; 14 requests that are no orders" },
    { "pause", pause_roots, pause_run, "every sequence of 5 (6) of {pause, resume, key frame, inter frame, audio, RTMP, HTTP-FLV, HTTP-TS player joins, group of frames} of a recorded stream" },
    { "record", record_roots, record_run, "every sequence of 6 (7) of {start, stop, key frame, inter frame, audio, publisher leaves or comes} of a manual recorder" },
    { "redirect", redirect_roots, redirect_run, "every sequence of 5 (6) of {publisher from s to t, back, players from s to t, back, key frame, inter frame, RTMP player of s, of t, HTTP-FLV player, HTTP-TS player}" }
)
