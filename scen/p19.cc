// P19: MPEG-DASH output (manifest, initialization and media segments) holds what was published.
#include "media.h"
#include "mp4.h"
#include <algorithm>
#include <memory>
using namespace rt;
static const string TOP = "/vxfs/dash/"; static string hist; static Client *pub;
static void drop(Client *&c) { if (!c) return; if (!c->c->closed) c->c->fin(); vx::pump(); delete c; c = nullptr; }
static void wipe() { vx::fs_fault = nullptr; vx::fs_hook = nullptr; drop(pub); for (auto &p : vx::fs_list(TOP)) vx::fs_unlink(p); vx::bad_fds.clear(); hist = ""; eseq = 0; hevc = false; vhs.clear(); ahs.clear(); }
static void sane() { if (!vx::bad_fds.empty()) vx::fail("%s: %s", hist.c_str(), vx::bad_fds[0].c_str()); for (auto &d : vx::denied) if (d.compare(0, 4, "/tmp")) vx::fail("%s: opened %s", hist.c_str(), d.c_str()); }
static void nofiles() { for (auto &f : vx::open_files()) if (!f.compare(0, TOP.size(), TOP)) vx::fail("%s: %s is still open after the publisher left", hist.c_str(), f.c_str()); }
static void up(Client *&c, const string &app, const string &nm) { c = new Client; c->name = "publisher"; if (!c->publisher(nm, app)) vx::fail("%s: cannot publish", hist.c_str()); }
static string show(const E &e) { return string(1, KC[e.k]) + std::to_string(e.ts) + " "; }
struct App { const char *name; uint32_t frag; size_t win; bool nested; };
static const App APP[] = { { "seq", 1000, 3, false }, { "nst", 1000, 2, true }, { "long", 60000, 2, false }, { "deny", 1000, 6, false } };
// ---- what the fragments of a session must hold
struct Fr { uint32_t start, dur = 0; std::vector<size_t> v, a; bool closed = false; };
struct Session {
    const App *ap; std::vector<E> ev; std::vector<Fr> fr; bool open = false, hasv = false, hasa = false; int V = -1, A = -1; bool mp3 = false; size_t vsz = 0, asz = 0; bool dup = false;
    void close() { if (open) { fr.back().closed = true; open = false; } }
    void update(uint32_t ts, bool key) {
        bool hit, force = false; int64_t d = open ? (int64_t) ts - fr.back().start : 0;
        if (d >= 0) { if (open) fr.back().dur = (uint32_t) d; hit = d >= ap->frag; force = d >= 2 * (int64_t) ap->frag; } else hit = -d > 1000;
        bool bnd = hasv ? key && hit : hit; if (force || !open || fr.back().v.size() >= 1024 || fr.back().a.size() >= 1024) bnd = true;
        if (bnd) { close(); for (auto &f : fr) if (f.start == ts) dup = true; Fr f; f.start = ts; fr.push_back(f); open = true; }
    }
    void add(const E &e) {
        ev.push_back(e); size_t i = ev.size() - 1; if (e.k == 3) V = e.hv; if (e.k == 4) { A = e.ha; mp3 = false; } if (e.k == 5) mp3 = true;
        if (e.k == 2) { if (A < 0) return; hasa = true; update(e.ts, false); fr.back().a.push_back(i); }
        if (e.k <= 1) { if (V < 0 || hevc) return; hasv = true; update(e.ts, e.k == 0); fr.back().v.push_back(i); }
    }
};
// ---- the manifest
struct Set { string id, mime, codecs, media, init; int width = 0, height = 0, rate = 0; long scale = 0; std::vector<std::pair<uint32_t, uint32_t>> s; };
struct Mpd { bool ok = true; string err; std::vector<Set> sets; string type; };
struct Tag { string name; std::map<string, string> a; bool close = false, self = false; };
static Mpd parse_mpd(const string &t)
{
    Mpd m; auto bad = [&](const string &e) { if (m.ok) { m.ok = false; m.err = e; } }; std::vector<string> st; size_t p = 0; bool root = false;
    while (m.ok && p < t.size()) {
        if (t[p] != '<') { if (!isspace((unsigned char) t[p])) bad("text at " + std::to_string(p)); p++; continue; }
        if (!t.compare(p, 2, "<?")) { if (p) bad("declaration in the middle"); p = t.find("?>", p); if (p == string::npos) { bad("unfinished declaration"); break; } p += 2; continue; }
        size_t e = t.find('>', p); if (e == string::npos) { bad("unfinished tag"); break; } Tag g; size_t q = p + 1; if (t[q] == '/') { g.close = true; q++; } while (q < e && !isspace((unsigned char) t[q]) && t[q] != '/') g.name += t[q++];
        while (q < e) { if (isspace((unsigned char) t[q])) { q++; continue; } if (t[q] == '/' && q + 1 == e) { g.self = true; q++; continue; } string k; while (q < e && t[q] != '=') k += t[q++]; if (q + 1 >= e || t[q + 1] != '"') { bad("bad attribute " + k); break; } size_t f = t.find('"', q + 2); if (f == string::npos || f > e) { bad("bad value of " + k); break; } string v = t.substr(q + 2, f - q - 2); if (v.find('<') != string::npos || g.a.count(k)) bad("bad value of " + k); g.a[k] = v; q = f + 1; }
        p = e + 1; if (g.close) { if (st.empty() || st.back() != g.name) bad("</" + g.name + ">"); else st.pop_back(); continue; }
        if (st.empty()) { if (root || g.name != "MPD") bad("root " + g.name); root = true; } string par = st.empty() ? "" : st.back(); if (!g.self) st.push_back(g.name);
        if (g.name == "MPD") m.type = g.a["type"]; else if (g.name == "Period") { if (par != "MPD") bad("Period in " + par); } else if (g.name == "AdaptationSet") { if (par != "Period") bad("set in " + par); m.sets.push_back(Set()); }
        else if (m.sets.empty()) bad(g.name + " outside of a set");
        else { Set &s = m.sets.back(); if (g.name == "Representation") { s.id = g.a["id"]; s.mime = g.a["mimeType"]; s.codecs = g.a["codecs"]; s.width = atoi(g.a["width"].c_str()); s.height = atoi(g.a["height"].c_str()); s.rate = atoi(g.a["audioSamplingRate"].c_str()); } else if (g.name == "SegmentTemplate") { s.scale = atol(g.a["timescale"].c_str()); s.media = g.a["media"]; s.init = g.a["initialization"]; if (par != "Representation") bad("template in " + par); } else if (g.name == "S") { if (par != "SegmentTimeline") bad("S in " + par); if (!g.a.count("t") || !g.a.count("d")) bad("S without t or d"); s.s.push_back({ (uint32_t) strtoul(g.a["t"].c_str(), nullptr, 10), (uint32_t) strtoul(g.a["d"].c_str(), nullptr, 10) }); } }
    }
    if (!st.empty() || !root) bad("unfinished document"); return m;
}
struct Stream {
    const App *ap; string name = "s"; std::vector<Session> ss; string last; size_t shown = 0; bool faulty = false; string tail;
    string root() const { return TOP + ap->name + "/"; }
    string base() const { return root() + (ap->nested ? name + "/" : ""); }
    string mpd() const { return root() + name + (ap->nested ? "/index" : "") + ".mpd"; }
    Session &begin() { ss.push_back(Session()); ss.back().ap = ap; return ss.back(); }
    string list(const Session &s, const std::vector<size_t> &v) { string o; for (auto i : v) o += " " + string(1, KC[s.ev[i].k]) + std::to_string(s.ev[i].ts); return o.empty() ? " nothing" : o; }
    string file(const string &t, long n) { string p = t; if (n >= 0) { size_t q = p.find("$Time$"); if (q == string::npos) vx::fail("%s: media template '%s'", hist.c_str(), t.c_str()); p.replace(q, 6, std::to_string(n)); } string f = base() + p; if (!vx::fs_exists(f)) vx::fail("%s: %s does not exist", hist.c_str(), f.c_str()); return vx::fs_read(f); }
    void segment(const Session &s, const Fr &f, const Set &st, bool video, size_t idx)
    {
        string b = file(st.media, f.start); Mp4 m = mp4_parse(b, false); string nm = string(video ? "video" : "audio") + " segment " + std::to_string(f.start); const char *h = hist.c_str();
        if (!m.ok) vx::fail("%s: %s: %s", h, nm.c_str(), m.err.c_str()); auto &want = video ? f.v : f.a; if (faulty) return;
        uint32_t dts = 0; if (m.track != 1 || m.seq != idx) vx::fail("%s: %s is number %u of track %u", h, nm.c_str(), m.seq, m.track);
        for (size_t i = 0; i < want.size() || i < m.s.size(); i++) {
            if (i >= m.s.size()) vx::fail("%s: %s holds %zu samples of%s", h, nm.c_str(), m.s.size(), list(s, want).c_str()); const Sample &x = m.s[i]; if (i >= want.size()) vx::fail("%s: %s holds '%s' after%s", h, nm.c_str(), hex(x.data.substr(0, 20)).c_str(), list(s, want).c_str());
            const E &e = s.ev[want[i]]; string d = e.data.substr(video ? 5 : 2); if (x.data != d) vx::fail("%s: %s: sample %zu should be %c%u, holds %s (%zu bytes)", h, nm.c_str(), i, KC[e.k], e.ts, hex(x.data.substr(0, 20)).c_str(), x.data.size());
            if (i && (int32_t) (e.ts - dts) < 0) { if (x.dts != dts) vx::fail("%s: %s: %c%u behind %u has time %llu", h, nm.c_str(), KC[e.k], e.ts, dts, (unsigned long long) x.dts); } else dts = e.ts; if (x.dts != dts) vx::fail("%s: %s: %c%u has time %llu", h, nm.c_str(), KC[e.k], e.ts, (unsigned long long) x.dts); if (video && (x.cts != e.cts || x.key != (e.k == 0))) vx::fail("%s: %s: %c%u with composition offset %d has %d, %s", h, nm.c_str(), KC[e.k], e.ts, e.cts, x.cts, x.key ? "is a key frame" : "is no key frame");
        }
        if (!want.empty() && m.ept != s.ev[want[0]].ts) vx::fail("%s: %s: index starts at %llu", h, nm.c_str(), (unsigned long long) m.ept);
    }
    void initseg(const Session &s, const Set &st, bool video)
    {
        Mp4 m = mp4_parse(file(st.init, -1), true); const char *h = hist.c_str(), *n = video ? "video" : "audio"; if (!m.ok) vx::fail("%s: %s initialization segment: %s", h, n, m.err.c_str()); if (faulty) return;
        if (m.track != 1 || m.scale != 1000 || m.mime != (video ? "vide" : "soun")) vx::fail("%s: %s initialization segment: track %u, scale %u, handler %s", h, n, m.track, m.scale, m.mime.c_str());
        // of the first header of the session
        string hd; for (auto &e : s.ev) if (e.k == (video ? 3 : 4)) { hd = e.data.substr(video ? 5 : 2); break; }
        if (m.codec != (video ? "avc1" : "mp4a") || m.conf != hd) vx::fail("%s: %s initialization segment holds %s %s, not %s", h, n, m.codec.c_str(), hex(m.conf).c_str(), hex(hd).c_str());
        if (video) { char cd[40]; snprintf(cd, sizeof cd, "avc1.%02x%02x%02x", (unsigned char) hd[1], (unsigned char) hd[2], (unsigned char) hd[3]); if (st.codecs != cd || st.width != m.width || st.height != m.height || m.width <= 0) vx::fail("%s: manifest announces %s %dx%d, the stream is %s %dx%d", h, st.codecs.c_str(), st.width, st.height, cd, m.width, m.height); }
        else { AHdr a = ahs[0]; for (auto &e : s.ev) if (e.k == 4) { a = ahs[e.ha]; break; } static const int HZ[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000 }; if (st.codecs != "mp4a.40.2" || st.rate != HZ[a.sr]) vx::fail("%s: manifest announces %s %d; the stream is AAC %d", h, st.codecs.c_str(), st.rate, HZ[a.sr]); }
    }
    void visible()
    {
        string t = vx::fs_read(mpd()); if (t == last) return; last = t; const char *h = hist.c_str(); if (t.empty()) vx::fail("%s: the manifest is empty", h); Mpd m = parse_mpd(t); if (!m.ok) vx::fail("%s: manifest: %s", h, m.err.c_str()); if (m.type != "dynamic") vx::fail("%s: type %s", h, m.type.c_str());
        if (ss.empty()) vx::fail("%s: a manifest nobody published", h); Session &s = ss.back(); size_t n = 0; for (auto &f : s.fr) n += f.closed; shown = n; size_t w = std::min(n, ap->win), k = 0;
        for (auto &st : m.sets) {
            bool v = st.mime == "video/mp4"; if (!v && st.mime != "audio/mp4") vx::fail("%s: set of %s", h, st.mime.c_str()); k |= v ? 1 : 2; if (st.scale != 1000) vx::fail("%s: time scale %ld", h, st.scale); if (!v && !s.hasa) vx::fail("%s: announces audio", h); if (v && !s.hasv) vx::fail("%s: announces video", h);
            string want, have; for (size_t i = n - w; i < n; i++) want += " " + std::to_string(s.fr[i].start) + "+" + std::to_string(s.fr[i].dur); for (auto &x : st.s) have += " " + std::to_string(x.first) + "+" + std::to_string(x.second); if (want != have && !faulty) vx::fail("%s: lists%s instead of%s", h, have.c_str(), want.c_str());
            if (!faulty) { initseg(s, st, v); for (size_t i = n - w; i < n; i++) segment(s, s.fr[i], st, v, i); }
        }
        if (k != (size_t) (s.hasv | s.hasa << 1) || m.sets.size() != (size_t) s.hasv + s.hasa) vx::fail("%s: the manifest has %zu sets", h, m.sets.size());
        vx::observe_u64(n * 16 + k);
    }
    void hook() { vx::fs_hook = [this](const char *, const string &p) { if (p.compare(0, TOP.size(), TOP)) return; if (vx::fs_exists(mpd())) visible(); }; }
};
// the model is told before the module sees a frame: a fragment counts as closed only when the frame after it came
static int content_roots() { return 2 * 4 * 8; }
static void content_run(int root)
{
    int ai = root % 2, pre = root / 2 % 4, first = root / 8; // pre: 0 video and audio, 1 video only, 2 audio only, 3 video and later audio
    vx::batch([&] {
        wipe(); vx::advance(1000); Stream st; st.ap = &APP[ai]; uint32_t ts = 50000; st.hook(); Session *s = nullptr; bool lateaudio = pre == 3;
        auto ev = [&](int k, int var = 0) { E e = mk(k, ts, var); hist += show(e); s->add(e); if (s->dup) vx::prune(); put(*pub, e); sane(); if (pub->c->closed) vx::fail("%s: the publisher was disconnected", hist.c_str()); if (s->fr.size() > 1 && !vx::fs_exists(st.mpd())) vx::fail("%s: no manifest", hist.c_str()); if (vx::fs_exists(st.mpd())) st.visible(); size_t n = 0; for (auto &f : s->fr) n += f.closed; if (n && st.shown != n) vx::fail("%s: the manifest is of %zu segments, %zu are complete", hist.c_str(), st.shown, n); };
        auto begin = [&] { s = &st.begin(); st.shown = 0; lateaudio = pre == 3; up(pub, st.ap->name, "s"); if (pre != 2) ev(3); if (pre == 0 || pre == 2) ev(4); if (pre != 2) ev(0); else ev(2); };
        auto end = [&] { s->close(); drop(pub); if (vx::fs_exists(st.mpd())) st.visible(); nofiles(); size_t n = 0; for (auto &f : s->fr) n += f.closed; if (st.shown != n) vx::fail("%s: at the end the manifest is of %zu segments of %zu", hist.c_str(), st.shown, n); };
        begin();
        auto step = [&](int a) {
            bool va = pre == 2;
            switch (a) {
            case 0: ts += 520; vx::advance(520); ev(va ? 2 : 0, eseq % 5); break;
            case 1: ts += 360; vx::advance(360); ev(va ? 2 : 1, eseq % 5); break;
            case 2: if (lateaudio) { lateaudio = false; ev(4); } ts += 40; vx::advance(40); ev(pre == 1 ? 1 : 2, eseq % 5); break;
            case 3: ts += 1040; vx::advance(1040); if (pre == 0) ev(2); ev(va ? 2 : 0, eseq % 5); break;
            case 4: ts += 4000; vx::advance(4000); ev(va ? 2 : 1); break;
            case 5: { static const uint32_t B[] = { 3700, 1001, 1000, 9000 }; ts = s->fr.back().start - B[eseq % 4]; } vx::advance(200); ev(va ? 2 : 0); break; // time starts again
            case 6: hist += "| "; end(); vx::advance(2000); ts = 50000 + 10000 * (uint32_t) st.ss.size(); begin(); break;
            case 7: ts += 100; if (pre == 0) { ev(0); ts -= 60; ev(2); ts += 60; } else ev(va ? 2 : 1, 2); break; // audio behind video
            }
        };
        step(first); int n = vx::tier_pick(4, 5); for (int i = 0; i < n; i++) step(vx::choose(8));
        vx::note("%s", hist.c_str()); end(); vx::fs_hook = nullptr; sane();
    });
}
// ---- many frames, large frames, far times
static int size_roots() { return 8; }
static void size_run(int root)
{
    wipe(); Stream st; st.ap = &APP[root < 3 ? 2 : 0]; st.hook(); vx::advance(1000); Session *s = &st.begin(); up(pub, st.ap->name, "s"); pub->set_chunk(65536); uint32_t ts = root == 5 ? 0x7ffffc00u : root == 6 ? 0xfffffc00u - 20000 : root == 7 ? 16776000 : 0;
    auto ev = [&](E e) { hist = "kind " + std::to_string(root) + ": " + std::to_string(s->ev.size()) + " frames"; s->add(e); put(*pub, e); sane(); if (pub->c->closed) vx::fail("%s: the publisher was disconnected", hist.c_str()); };
    ev(mk(3, ts)); ev(mk(4, ts)); 
    if (root == 0) for (int i = 0; i < 6000; i++) { ev(mk(2, ts)); if (i % 60 == 0) ev(mk(i % 3000 == 0 ? 0 : 1, ts)); ts += 23; vx::advance(23); }             // audio only fills a fragment
    if (root == 1) for (int i = 0; i < 4000; i++) { ev(mk(i % 2000 == 0 ? 0 : 1, ts)); ts += 33; vx::advance(33); }
    if (root == 2) for (int i = 0; i < 3000; i++) { ev(mk(i == 0 ? 0 : 1, ts)); if (i % 3 == 0) ev(mk(2, ts)); ts += 20; vx::advance(20); }
    if (root == 3) for (size_t n = 1; n < 3000; n += 7) { E e = mk(n % 5 ? 1 : 0, ts); e.data += string(n, 'z'); e.data.replace(0, 0, ""); ev(e); ts += 40; vx::advance(40); }
    if (root == 4) for (size_t n : { 65000, 100000, 300000, 524288, 1000000, 1048000 }) for (int k = 0; k < 3; k++) { E e = mk(k, ts); e.data += string(n, 'z'); if (e.data.size() - (k == 2 ? 2 : 5) > 1048576) continue; ev(e); ts += 400; vx::advance(400); }
    if (root >= 5) for (int i = 0; i < 60; i++) { ev(mk(i % 3 ? 1 : 0, ts)); ev(mk(2, ts)); if (ts + 400 < ts) break; ts += 400; vx::advance(400); }
    s->close(); drop(pub); st.visible(); nofiles(); vx::fs_hook = nullptr; vx::note("kind %d: %zu frames in %zu fragments", root, s->ev.size(), s->fr.size()); vx::count(1, s->ev.size(), 1);
}
// ---- the disk fails
static int fault_roots() { return 2 * 5; }
static void fault_run(int root)
{
    int ai = root / 5, how = root % 5, total = 1000;
    for (int at = 0; at < total; at++) {
        wipe(); vx::advance(1000); Stream st; st.ap = &APP[ai]; st.faulty = true; st.hook(); Client L; L.name = "player"; uint32_t ts = 1000; int n = 0; size_t sent = 0; Session *s = &st.begin(); up(pub, st.ap->name, "s"); if (!L.player("s", st.ap->name)) vx::fail("player"); hist = string(st.ap->name) + ": operation " + std::to_string(at) + " fails, way " + std::to_string(how);
        vx::fs_fault = [&](const vx::FsOp &o) -> int { if (o.path.compare(0, TOP.size(), TOP)) return 0; int k = n++; if (how == 1 ? k < at || k > at + 30 : k != at) return 0; if (how >= 2 && (o.kind != vx::FS_WRITE || o.data.size() < 2)) return 0; if (k == at) hist += ": " + string(o.kind == vx::FS_WRITE ? "write " : o.kind == vx::FS_RENAME ? "rename " : "open ") + o.path; return how == 0 ? 5 : how == 1 ? 28 : how == 2 ? -1 : how == 3 ? -(int) std::min<size_t>(100, o.data.size() - 1) : -(int) (o.data.size() / 2); };
        auto ev = [&](int k, int v = 0) { E e = mk(k, ts, v); s->add(e); put(*pub, e); sane(); if (pub->c->closed) vx::fail("%s: the publisher was disconnected", hist.c_str()); if (e.k <= 2) sent++; };
        ev(3); ev(4); for (int i = 0; i < 5; i++) { ev(2); ev(0); ts += 300; vx::advance(300); ev(1, 4); ts += 800; vx::advance(800); }
        vx::fs_fault = nullptr; for (int i = 0; i < 4; i++) { ev(2); ev(0); ts += 1100; vx::advance(1100); if (i == 3) st.faulty = false; }
        size_t got = 0; for (auto &m : L.av()) if (m.data.size() > 2 && m.data[1] == 1) got++; if (L.c->closed || got != sent) vx::fail("%s: the player got %zu of %zu frames", hist.c_str(), got, sent);
        s->close(); drop(pub); if (!vx::fs_exists(st.mpd())) vx::fail("%s: no manifest", hist.c_str()); st.last = ""; st.visible(); nofiles();
        L.c->fin(); vx::fs_hook = nullptr; vx::pump(); total = n; vx::count(1, (uint64_t) n, 1);
    }
    vx::note("%s: %d operations", APP[ai].name, total);
}
// ---- somebody who may not publish
static int refused_roots() { return 2 * 6; }
static void refused_run(int root)
{
    int how = root / 6, first = root % 6; // 0 the name is taken, 1 the address is denied
    vx::batch([&] {
        wipe(); vx::advance(1000); Stream st; st.ap = &APP[how ? 3 : 0]; st.hook(); Client *B = nullptr; Session *s = nullptr; uint32_t ts = 100;
        auto ev = [&](int k) { E e = mk(k, ts); hist += show(e); s->add(e); put(*pub, e); if (vx::fs_exists(st.mpd())) st.visible(); };
        auto step = [&](int k) {
            switch (k) {
            case 0: case 1: case 2: if (!pub) { s = &st.begin(); pub = new Client; pub->name = "accepted publisher"; if (!pub->publisher("s", st.ap->name, "1935", "10.0.0.1")) vx::fail("%s: not accepted", hist.c_str()); ev(3); ev(4); } ts += k == 0 ? 1040 : 40; vx::advance(k == 0 ? 1040 : 40); ev(k); break;
            case 3: if (B || (how == 0 && !pub)) return; B = new Client; B->name = "refused publisher"; if (!B->up(st.ap->name, "1935", "10.0.0.6")) vx::fail("B"); B->publish("s"); vx::pump(); hist += "other-tries "; if (B->saw_code("NetStream.Publish.Start")) vx::fail("%s: accepted", hist.c_str()); break;
            case 4: if (!B || B->c->closed) return; for (int h : { 3, 4, 0, 2 }) { E e = mk(h, ts + 1500); if (h == 3) vhs.pop_back(); if (h == 4) ahs.pop_back(); if (!B->c->closed) put(*B, e); } hist += "other-sends "; break;
            case 5: if (!B) return; if (!B->c->closed && (eseq & 1)) { B->cmd("deleteStream", { Null(), N(1) }); vx::pump(); if (!B->c->closed) put(*B, mk(0, ts)); } drop(B); hist += "other-goes "; break;
            }
            sane(); if (vx::fs_exists(st.mpd())) st.visible(); if (!s) for (auto &p : vx::fs_list(st.root())) if (p.size() > st.root().size()) vx::fail("%s: %s was made for a refused publisher", hist.c_str(), p.c_str());
        };
        step(first); int n = vx::tier_pick(4, 6); for (int i = 0; i < n; i++) step(vx::choose(6)); vx::note("%s", hist.c_str());
        drop(B); if (s) s->close(); drop(pub); if (vx::fs_exists(st.mpd())) st.visible(); nofiles(); sane(); vx::fs_hook = nullptr;
    });
}
// ---- names
static int names_roots() { return 8; }
static void names_run(int root)
{
    static const char AL[] = { 'a', '.', '/', '%', '-', '_', '\x81', '?' };
    vx::batch([&] {
        int ai = vx::choose(2); wipe(); vx::advance(1000); Stream st; st.ap = &APP[ai]; string nm(1, AL[root]); int n = vx::choose(4); for (int i = 0; i < n; i++) nm += AL[vx::choose(8)]; if (n == 3 && nm == string(4, AL[root])) { string f; for (int i = 0; i < 60; i++) f += nm; nm = f; } hist = string(st.ap->name) + ": stream '" + nm + "'";
        auto before = vx::fs_list("/vxfs/"); pub = new Client; if (!pub->up(st.ap->name)) vx::fail("up"); pub->publish(nm); vx::pump(); bool ok = pub->saw_code("NetStream.Publish.Start"); string want = nm.substr(0, nm.find('?')); st.name = want; Session *s = &st.begin();
        if (ok) { uint32_t ts = 10; for (int i = 0; i < 3 && !pub->c->closed; i++) { for (int k : { 3, 0 }) if ((k == 0 || i == 0) && !pub->c->closed) { E e = mk(k, ts); s->add(e); put(*pub, e); } ts += 1100; vx::advance(1100); } } s->close(); drop(pub);
        for (auto &p : vx::fs_list("/vxfs/")) if (std::find(before.begin(), before.end(), p) == before.end() && (p + "/").compare(0, st.root().size(), st.root())) vx::fail("%s writes %s", hist.c_str(), p.c_str());
        if (ok && !want.empty() && want.find('/') == string::npos && want.find("..") == string::npos && want != ".") { if (!vx::fs_exists(st.mpd())) vx::fail("%s: no manifest", hist.c_str()); st.visible(); }
        sane(); nofiles(); vx::observe_u64(ok);
    });
}
// ---- cleaning up
extern "C" int hls_cleanup(const char *prefix);
static int clean_roots() { return 1; }
static void clean_run(int)
{
    static const char *NM[] = { "a-1.m4v", "a-1.m4a", "a.mpd", "a-init.m4v", "a-init.m4a", "b-init.m4v", "a.mpd.bak", "a.mp4", ".x.m4v", "m4v", "a.m4vx", "x.mp", "d/index.mpd", "d/1.m4v", "d/init.m4v", "d/init.m4a", "d/readme", "e/2.m4a", "e/f/3.m4v", "e/init.m4a", "x-raw.m4v" };
    const string dir = TOP + "cln/"; const long PL = 20;
    for (long age = 0; age <= 45; age++) for (int sub = 0; sub < 4; sub++) {
        wipe(); for (const char *d : { "cln", "cln/d", "cln/e", "cln/e/f", "cln/g" }) vx::fs_mkdir(TOP + d); string other = TOP + "seq/1.m4v"; vx::fs_mkdir(TOP + "seq"); std::vector<string> have; vx::advance(1000 - vx::now_ms() % 1000);
        for (size_t i = 0; i < sizeof NM / sizeof *NM; i++) if (sub == 0 || (i % 4) == (size_t) sub) { vx::fs_write(dir + NM[i], "x"); have.push_back(NM[i]); }
        vx::fs_write(other, "x"); vx::advance((uint64_t) age * 1000); hist = "files " + std::to_string(age) + " s old"; std::map<string, bool> had; for (auto &n : have) had[n] = true; if (!hls_cleanup(dir.c_str()) || !hls_cleanup(dir.c_str())) vx::fail("no cleanup for %s", dir.c_str());
        for (auto &n : have) {
            string leaf = n.substr(n.rfind('/') == string::npos ? 0 : n.rfind('/') + 1), par = n.substr(0, n.size() - leaf.size()); auto endsw = [&](const char *x) { return leaf.size() >= strlen(x) && !leaf.compare(leaf.size() - strlen(x), strlen(x), x); }; bool ex = vx::fs_exists(dir + n);
            if (endsw("init.m4v") || endsw("init.m4a")) { string m = par + (leaf.size() == 8 ? "index" : leaf.substr(0, leaf.size() - 9)) + ".mpd"; bool mp = had.count(m) && age < 2 * PL; if (age == 2 * PL) continue; if (ex != mp) vx::fail("%s: %s %s", hist.c_str(), n.c_str(), ex ? "is still there" : "was removed while the manifest is there"); continue; }
            long max = leaf[0] == '.' ? -1 : endsw(".m4v") || endsw(".m4a") || endsw(".mpd") ? 2 * PL : -1; if (max < 0 || age < max) { if (!ex) vx::fail("%s: %s was removed", hist.c_str(), n.c_str()); } else if (age > max && ex) vx::fail("%s: %s is still there", hist.c_str(), n.c_str());
        }
        if (!vx::fs_exists(other)) vx::fail("%s: a file of another directory was removed", hist.c_str()); sane(); vx::count(1, have.size(), 1);
    }
    vx::note("cleanup");
}
VX_SCENARIOS(
    { "size", size_roots, size_run, "fragments of thousands of frames, frames of 1-3000 bytes and up to 1 MB, timestamps around 2^24, 2^31 and 2^32" },
    { "fault", fault_roots, fault_run, "2 applications x every file operation of a 9-fragment session x error once, disk full for 30 operations, short writes of 1, 100 bytes and half, with a live player" },
    { "refused", refused_roots, refused_run, "2 ways of refusing x every sequence of 5 (7) steps of frames of the accepted publisher and tries, media and leaving of the other" },
    { "names", names_roots, names_run, "every stream name of up to 4 characters over letter, dot, slash, percent, dash, underscore, byte, question mark, and 240-character repeats, x 2 applications" },
    { "clean", clean_roots, clean_run, "21 files of every kind of name, in nested directories, x ages of 0-45 s x subsets" },
    { "content", content_roots, content_run, "2 applications x video and audio, video only, audio only, audio later x every sequence of 5 (6) of key frame, inter frame, audio, a second later, a gap over two fragments, time starting again, republishing, audio behind video, with 5 kinds of frame; the disk is checked at every file operation" }
)
