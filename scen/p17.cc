// P17: HLS output (playlists and MPEG-TS fragments) holds what was published.
#include "http.h"
#include "media.h"
#include "notify.h"
#include <algorithm>
#include <memory>
using namespace rt;
static const string TOP = "/vxfs/hls/"; static string ROOT = TOP;
static string hist; static Client *pub;
static void drop(Client *&c) { if (!c) return; if (!c->c->closed) c->c->fin(); vx::pump(); delete c; c = nullptr; }
static void rmtree(const string &d) { for (auto &p : vx::fs_list(d)) vx::fs_unlink(p); }
static void wipe() { vx::fs_fault = nullptr; vx::fs_hook = nullptr; drop(pub); nserve(); nreset(); rmtree(TOP); vx::bad_fds.clear(); hist = ""; eseq = 0; }
static void sane()
{
    if (!vx::bad_fds.empty()) vx::fail("%s: %s", hist.c_str(), vx::bad_fds[0].c_str());
    for (auto &d : vx::denied) if (d.compare(0, 4, "/tmp")) vx::fail("%s: opened %s", hist.c_str(), d.c_str());
}
static void nofiles() { for (auto &f : vx::open_files()) if (!f.compare(0, ROOT.size(), ROOT)) vx::fail("%s: %s is still open after the publisher left", hist.c_str(), f.c_str()); }

// ---- applications and what their directives mean
struct App { const char *name; uint64_t win; double frag, maxf; bool nested, keys, cont, aligned; int naming; const char *base, *keydir, *keyurl; int perkey; };
static const App APP[] = {
    { "seq", 3, 1, 3, false, false, true, false, 0, "", "", "", 0 }, { "nst", 2, 1, 3, true, false, true, false, 2, "http://cdn/", "", "", 0 }, { "tsn", 2, 1, 3, false, false, true, true, 1, "", "", "", 0 },
    { "key", 3, 1, 3, false, true, true, false, 0, "", "keys/", "http://k/", 2 }, { "kns", 3, 1, 3, true, true, true, false, 0, "", "", "", 1 }, { "frs", 3, 1, 3, false, false, false, false, 0, "", "", "", 0 },
    { "var", 3, 1, 3, false, false, true, false, 0, "", "", "", 0 } };
// what a fragment must hold: video frames, audio frames (events), in order
struct Fr { uint64_t seq; uint32_t start; double dur = 0; bool disc; std::vector<size_t> v, a; bool closed = false; uint64_t id; uint64_t kid; int vt = 0, at = 0; };
struct Session {
    const App *ap; std::vector<E> ev; std::vector<int> hv, ha; std::vector<Fr> fr; bool open = false; uint64_t base = 0; int V = -1, A = -1; bool mp3 = false; std::vector<size_t> buf; uint32_t bufts = 0; uint64_t fragts = 0; int kleft = 0; uint64_t kid = 0; bool seenv = false, seena = false;
    void flush() { if (!open || buf.empty()) return; for (auto i : buf) fr.back().a.push_back(i); buf.clear(); }
    void close() { if (!open) return; fr.back().closed = true; open = false; }
    void update(uint32_t ts, bool bnd, int rate) {
        bool force = false, disc = true; double dur = -1;
        if (open) { int64_t d = (int64_t) ts - (int64_t) fragts; if (d > ap->maxf * 1000 || d < -1000) force = true; else { if (d > 0) fr.back().dur = (double) d / 1000; disc = false; } dur = fr.back().dur; }
        if (!ap->aligned) { if (open && dur < ap->frag) bnd = false; }
        else { uint64_t L = (uint64_t) (ap->frag * 1000); bool same = fragts / L == ts / L; if (open && same) bnd = false; if (!open && (fragts == 0 || same)) { fragts = ts; bnd = false; } }
        if (bnd || force) {
            close(); Fr f; f.seq = base + fr.size(); f.start = ts; f.disc = disc; f.id = ap->naming == 0 ? f.seq : ap->naming == 1 ? (uint64_t) ts * 90 : vx::now_ms();
            if (ap->keys) { if (kleft == 0) { kleft = ap->perkey - 1; kid = f.id; } else if (ap->perkey) kleft--; } f.kid = kid; f.vt = seenv ? hevc ? 0x24 : 0x1b : 0; f.at = seena ? (mp3 ? 3 : 0x0f) : 0;
            fr.push_back(f); open = true; fragts = ts; flush();
        }
        if (open && !buf.empty() && (int64_t) bufts + 300 / rate < (int64_t) ts) flush();
    }
    void add(const E &e) {
        ev.push_back(e); size_t i = ev.size() - 1; if (e.k == 3) V = e.hv; if (e.k == 4) A = e.ha; hv.push_back(V); ha.push_back(A);
        if (e.k == 0 || e.k == 1 || e.k == 3) seenv = true; else { seena = true; mp3 = e.k == 5; }
        if (e.k == 2 || e.k == 5) { if (e.k == 2 && A < 0) return; update(e.ts, V < 0, 2); if (buf.empty()) bufts = e.ts; buf.push_back(i); }
        if (e.k <= 1) { if (V < 0) return; update(e.ts, e.k == 0 && (A < 0 || !open || !buf.empty()), 1); if (open) fr.back().v.push_back(i); }
    }
    void end() { flush(); close(); }
};
// ---- playlists
struct Ent { string uri; double dur = 0; bool disc = false; string key, iv; };
struct Pl { bool ok = true; string err; uint64_t seq = 0; long target = -1; std::vector<Ent> e; };
static Pl parse_pl(const string &t)
{
    Pl p; auto bad = [&](const string &e) { if (p.ok) { p.ok = false; p.err = e; } };
    if (t.empty() || t.back() != '\n') { bad("does not end with a line"); return p; }
    size_t q = 0; bool first = true, inf = false, seq = false; Ent cur; string key, iv;
    while (q < t.size()) {
        size_t n = t.find('\n', q); string l = t.substr(q, n - q); q = n + 1;
        auto is = [&](const char *x) { return l.compare(0, strlen(x), x) == 0; };
        if (first) { if (l != "#EXTM3U") bad("no #EXTM3U"); first = false; continue; }
        if (is("#EXT-X-MEDIA-SEQUENCE:")) { p.seq = strtoull(l.c_str() + 22, nullptr, 10); seq = true; if (!p.e.empty()) bad("media sequence after a segment"); }
        else if (is("#EXT-X-TARGETDURATION:")) p.target = atol(l.c_str() + 22);
        else if (is("#EXT-X-DISCONTINUITY")) cur.disc = true;
        else if (is("#EXT-X-KEY:")) { size_t a = l.find("URI=\""), b = a == string::npos ? a : l.find('"', a + 5), c = l.find("IV=0x"); if (l.find("METHOD=AES-128") == string::npos || b == string::npos || c == string::npos) bad("bad key: " + l); else { key = l.substr(a + 5, b - a - 5); iv = l.substr(c + 5); if (iv.size() != 32) bad("bad IV: " + l); } }
        else if (is("#EXTINF:")) { char *e; cur.dur = strtod(l.c_str() + 8, &e); if (*e != ',' || cur.dur < 0) bad("bad duration: " + l); inf = true; }
        else if (is("#")) continue;
        else { if (!inf) bad("segment without a duration"); cur.uri = l; cur.key = key; cur.iv = iv; p.e.push_back(cur); cur = Ent(); inf = false; }
    }
    if (inf || cur.disc) bad("unfinished entry"); if (p.target < 0) bad("no target duration"); (void) seq;
    return p;
}
typedef int (*SetKey)(const unsigned char *, int, void *); typedef void (*Cbc)(const unsigned char *, unsigned char *, size_t, const void *, unsigned char *, int);
static bool decrypt(const string &c, const string &key, const string &ivhex, string &out)
{
    static SetKey sk = (SetKey) vx::sym("AES_set_decrypt_key"); static Cbc cb = (Cbc) vx::sym("AES_cbc_encrypt");
    if (key.size() != 16 || c.empty() || c.size() % 16) return false;
    unsigned char iv[16], ks[512]; for (int i = 0; i < 16; i++) iv[i] = (unsigned char) strtol(ivhex.substr((size_t) i * 2, 2).c_str(), nullptr, 16);
    if (sk((const unsigned char *) key.data(), 128, ks)) return false;
    out.resize(c.size()); cb((const unsigned char *) c.data(), (unsigned char *) &out[0], c.size(), ks, iv, 0);
    int pad = (unsigned char) out.back(); if (pad < 1 || pad > 16) return false; for (int i = 0; i < pad; i++) if ((unsigned char) out[out.size() - 1 - (size_t) i] != pad) return false;
    out.resize(out.size() - (size_t) pad); return true;
}
// ---- one stream of one application, over all its sessions
struct Stream {
    const App *ap; string name; std::vector<Session> ss; std::map<uint64_t, string> body; // by sequence: uri + plain content, once listed
    string lastpl, lastvar; bool faulty = false; size_t shown = 0; uint64_t lastseq = 0;
    string pl() const { return ROOT + name + (ap->nested ? "/index" : "") + ".m3u8"; }
    string file(uint64_t id, const char *ext, const string &dir = "") const { return ROOT + dir + name + (ap->nested ? "/" : "-") + std::to_string(id) + ext; }
    const Fr *frag(uint64_t seq, Session **s) { for (auto &x : ss) for (auto &f : x.fr) if (f.seq == seq) { *s = &x; if (!ap->cont) { if (&x != &ss.back()) continue; } return &f; } return nullptr; }
    string plain(const Ent &e, const string &cx) {
        size_t sl = e.uri.rfind('/'); string leaf = e.uri.substr(sl == string::npos ? 0 : sl + 1); string want = string(ap->base) + (ap->nested ? (*ap->base ? name + "/" : "") : name + "-");
        if (e.uri.compare(0, want.size(), want)) vx::fail("%s: segment '%s' should start with '%s'", cx.c_str(), e.uri.c_str(), want.c_str());
        string path = ROOT + (ap->nested ? name + "/" : "") + (ap->nested ? leaf : e.uri);
        if (!vx::fs_exists(path)) vx::fail("%s: segment %s does not exist", cx.c_str(), path.c_str());
        string b = vx::fs_read(path);
        if (!ap->keys) { if (!e.key.empty()) vx::fail("%s: key for %s", cx.c_str(), e.uri.c_str()); return b; }
        if (e.key.empty()) vx::fail("%s: no key for %s", cx.c_str(), e.uri.c_str());
        string kw = string(ap->keyurl) + (ap->nested ? (*ap->keyurl ? name + "/" : "") : name + "-"); if (e.key.compare(0, kw.size(), kw)) vx::fail("%s: key '%s' should start with '%s'", cx.c_str(), e.key.c_str(), kw.c_str());
        size_t ks = e.key.rfind('/'); string kp = ROOT + ap->keydir + (ap->nested ? name + "/" : "") + e.key.substr(ks == string::npos ? 0 : ks + 1); if (!vx::fs_exists(kp)) vx::fail("%s: key file %s does not exist", cx.c_str(), kp.c_str());
        string o; if (!decrypt(b, vx::fs_read(kp), e.iv, o)) vx::fail("%s: %s cannot be decrypted with %s", cx.c_str(), e.uri.c_str(), e.key.c_str());
        return o;
    }
    std::map<const Session *, std::map<int, int>> ccs; std::map<const Session *, uint64_t> ccnext;
    static string list(const Session &s, const std::vector<size_t> &v) { string o; for (auto i : v) o += " " + string(1, KC[s.ev[i].k]) + std::to_string(i); return o.empty() ? " nothing" : o; }
    void content(Session &s, const Fr &f, const string &b, const string &cx) {
        std::map<int, int> cc = ccs[&s]; bool chain = ccnext.count(&s) ? ccnext[&s] == f.seq : true; if (!chain) cc.clear();
        TsFile t = ts_parse(b, &cc, !faulty); if (!t.ok) vx::fail("%s: fragment %llu: %s", cx.c_str(), (unsigned long long) f.seq, t.err.c_str());
        ccs[&s] = cc; ccnext[&s] = f.seq + 1;
        if (faulty) return;
        if (t.vtype != f.vt || t.atype != f.at) vx::fail("%s: fragment %llu announces stream types %d and %d, holds %d and %d", cx.c_str(), (unsigned long long) f.seq, t.vtype, t.atype, f.vt, f.at);
        size_t nv = 0, na = 0; bool firstv = true; (void) firstv;
        for (auto &p : t.pes) {
            if ((p.sid & 0xf0) == 0xe0) {
                std::vector<string> n; if (!annexb(p.data, n)) vx::fail("%s: fragment %llu: a video frame without start code", cx.c_str(), (unsigned long long) f.seq);
                if (nv == f.v.size()) vx::fail("%s: fragment %llu holds a video frame after%s", cx.c_str(), (unsigned long long) f.seq, list(s, f.v).c_str());
                size_t i = f.v[nv++]; const E &e = s.ev[i]; std::vector<string> w = { "\x09\xf0" }; if (hevc) { w[0] = "\x46\x01\x50"; bool ps = false; const VHdr &h = vhs[s.hv[i]]; for (auto &x : e.nals) { int ty = x[0] >> 1 & 63; if (ty >= 32 && ty <= 35) continue; if (ty >= 16 && ty <= 23) { if (!ps) { ps = true; w.push_back(h.vps); w.push_back(h.sps); w.push_back(h.pps); } } else ps = false; w.push_back(x); } }
                bool ps = false; if (!hevc) for (auto &x : e.nals) { int ty = x[0] & 31; if (ty >= 7 && ty <= 9) continue; if (ty == 5 && !ps) { ps = true; w.push_back(vhs[s.hv[i]].sps); w.push_back(vhs[s.hv[i]].pps); } w.push_back(x); }
                if (n != w) { string d; for (auto &x : n) d += " '" + x.substr(0, 24) + "'"; vx::fail("%s: fragment %llu: video frame %zu should be %c%zu, holds%s", cx.c_str(), (unsigned long long) f.seq, nv, KC[e.k], i, d.c_str()); }
                uint64_t D = 1ull << 33, dts = (uint64_t) e.ts * 90 + 63000, pts = dts + (uint64_t) ((int64_t) e.cts * 90);
                if (p.dts != dts % D || p.pts != pts % D) vx::fail("%s: fragment %llu: %c%zu@%u (composition %d) has pts %llu dts %llu, not %llu and %llu", cx.c_str(), (unsigned long long) f.seq, KC[e.k], i, e.ts, e.cts, (unsigned long long) p.pts, (unsigned long long) p.dts, (unsigned long long) (pts % D), (unsigned long long) (dts % D));
                if (p.rai != (e.k == 0) || p.haspcr != (e.k == 0)) vx::fail("%s: %c%zu is%s marked as a random access point", cx.c_str(), KC[e.k], i, p.rai ? "" : " not");
                if (p.haspcr && ((p.dts - p.pcr) % D) > 2 * 63000) vx::fail("%s: PCR %llu of a frame with dts %llu", cx.c_str(), (unsigned long long) p.pcr, (unsigned long long) p.dts);
            } else {
                std::vector<string> fr; std::vector<Adts> a; size_t i0 = na < f.a.size() ? f.a[na] : (size_t) -1;
                if (i0 != (size_t) -1 && s.ev[i0].k == 5) { // MP3: frames follow one another
                    string d = p.data; while (!d.empty()) { if (na == f.a.size()) vx::fail("%s: fragment %llu holds audio after%s", cx.c_str(), (unsigned long long) f.seq, list(s, f.a).c_str()); const E &e = s.ev[f.a[na]]; if (d.compare(0, e.raw.size(), e.raw)) vx::fail("%s: fragment %llu: audio frame %zu should be %c%zu", cx.c_str(), (unsigned long long) f.seq, na, KC[e.k], f.a[na]); d = d.substr(e.raw.size()); na++; }
                } else {
                    if (!adts(p.data, a)) vx::fail("%s: fragment %llu: broken ADTS framing in an audio packet of %zu bytes", cx.c_str(), (unsigned long long) f.seq, p.data.size());
                    for (auto &x : a) {
                        if (na == f.a.size()) vx::fail("%s: fragment %llu holds an audio frame after%s", cx.c_str(), (unsigned long long) f.seq, list(s, f.a).c_str());
                        size_t i = f.a[na++]; const E &e = s.ev[i]; const AHdr &h = ahs[s.ha[i]];
                        if (x.data != e.raw || x.obj != h.obj || x.sr != h.sr || x.ch != h.ch) vx::fail("%s: fragment %llu: audio frame %zu should be A%zu (%d %d %d), is '%s' (%d %d %d)", cx.c_str(), (unsigned long long) f.seq, na, i, h.obj, h.sr, h.ch, x.data.substr(0, 24).c_str(), x.obj, x.sr, x.ch);
                    }
                }
                if (i0 == (size_t) -1) vx::fail("%s: fragment %llu holds an audio frame after%s", cx.c_str(), (unsigned long long) f.seq, list(s, f.a).c_str());
                int64_t d = (int64_t) p.pts - (int64_t) (((uint64_t) s.ev[i0].ts * 90 + 63000) & ((1ull << 33) - 1)); if (d < -200 || d > 200) vx::fail("%s: audio A%zu@%u has pts %llu", cx.c_str(), i0, s.ev[i0].ts, (unsigned long long) p.pts);
            }
        }
        if (nv < f.v.size()) vx::fail("%s: fragment %llu: video frame %c%zu is missing (%zu of%s)", cx.c_str(), (unsigned long long) f.seq, KC[s.ev[f.v[nv]].k], f.v[nv], nv, list(s, f.v).c_str());
        if (na < f.a.size()) vx::fail("%s: fragment %llu: audio frame %c%zu is missing (%zu of%s)", cx.c_str(), (unsigned long long) f.seq, KC[s.ev[f.a[na]].k], f.a[na], na, list(s, f.a).c_str());
        vx::observe_u64(nv * 64 + na);
    }
    // the visible playlist, whenever it changes
    void visible(bool quiet = false) {
        string t = vx::fs_read(pl()); if (t == lastpl) return;
        string cx = hist + ": playlist"; Pl p = parse_pl(t); if (!p.ok) vx::fail("%s %s: '%s'", cx.c_str(), p.err.c_str(), t.c_str());
        lastpl = t; if (quiet) return;
        if (p.e.empty() || p.e.size() > ap->win) vx::fail("%s of %zu segments, the window is %llu", cx.c_str(), p.e.size(), (unsigned long long) ap->win);
        if (p.target < (long) ap->frag) vx::fail("%s: target duration %ld", cx.c_str(), p.target);
        for (size_t i = 0; i < p.e.size(); i++) {
            Ent &e = p.e[i]; uint64_t q = p.seq + i; if (e.dur >= (double) p.target + .5) vx::fail("%s: segment of %.3f s, target duration %ld", cx.c_str(), e.dur, p.target);
            string b = plain(e, cx); string sig = e.uri + "|" + std::to_string(e.dur) + "|" + (e.disc ? "d" : "") + b;
            if (body.count(q)) { if (body[q] != sig) vx::fail("%s: segment %llu (%s) is not what it was when it was first listed", cx.c_str(), (unsigned long long) q, e.uri.c_str()); continue; }
            body[q] = sig; Session *s = nullptr; const Fr *f = frag(q, &s);
            if (!f) vx::fail("%s: segment %llu was never made", cx.c_str(), (unsigned long long) q);
            if (faulty) { content(*s, *f, b, cx); continue; }
            if (file(f->id, ".ts").substr(file(f->id, ".ts").rfind('/') + 1) != e.uri.substr(e.uri.rfind('/') == string::npos ? 0 : e.uri.rfind('/') + 1)) vx::fail("%s: segment %llu is %s, should be %s", cx.c_str(), (unsigned long long) q, e.uri.c_str(), file(f->id, ".ts").c_str());
            if (e.disc != f->disc) vx::fail("%s: segment %llu is%s marked as a discontinuity", cx.c_str(), (unsigned long long) q, e.disc ? "" : " not");
            if (e.dur < f->dur - .0006 || e.dur > f->dur + .0006) vx::fail("%s: segment %llu lasts %.3f s, is said to last %.3f", cx.c_str(), (unsigned long long) q, f->dur, e.dur);
            content(*s, *f, b, cx);
        }
        if (p.seq < lastseq && ap->cont) vx::fail("%s: media sequence went back from %llu to %llu", cx.c_str(), (unsigned long long) lastseq, (unsigned long long) p.seq);
        lastseq = p.seq; shown++;
        // it ends with the newest finished fragment and holds as many as the window allows
        if (!faulty) {
            Session &s = ss.back(); uint64_t n = 0; for (auto &f : s.fr) if (f.closed) n++; uint64_t end = s.base + n, all = ap->cont ? end : n; (void) all;
            if (p.seq + p.e.size() != end && p.seq + p.e.size() + 0 != end) vx::fail("%s ends with segment %llu of %llu", cx.c_str(), (unsigned long long) (p.seq + p.e.size()), (unsigned long long) end);
            if (p.e.size() != std::min<uint64_t>(ap->win, end)) vx::fail("%s lists %zu of %llu segments", cx.c_str(), p.e.size(), (unsigned long long) end);
        }
    }
    void variant() {
        if (strcmp(ap->name, "var")) return;
        for (const char *suf : { "_low", "_hi" }) { size_t n = strlen(suf); if (name.size() <= n || name.compare(name.size() - n, n, suf)) continue; string b = name.substr(0, name.size() - n), t = vx::fs_read(ROOT + b + ".m3u8"); if (lastpl.empty()) continue;
            string w = "#EXTM3U\n#EXT-X-VERSION:3\n#EXT-X-STREAM-INF:PROGRAM-ID=1,BANDWIDTH=160000\n" + b + "_low.m3u8\n#EXT-X-STREAM-INF:PROGRAM-ID=1,BANDWIDTH=640000,RESOLUTION=640x360\n" + b + "_hi.m3u8\n"; if (t != w) vx::fail("%s: variant playlist is '%s'", hist.c_str(), t.c_str()); }
    }
    Session &begin() { uint64_t b = 0; if (ap->cont) for (auto &s : ss) for (auto &f : s.fr) b = std::max(b, f.seq + 1); ss.reserve(16); ss.emplace_back(); ss.back().ap = ap; ss.back().base = b; if (!ap->cont) { body.clear(); lastseq = 0; vx::fs_unlink(pl()); lastpl = ""; } return ss.back(); }
    void hook() { vx::fs_hook = [this](const char *, const string &) { if (!busy) { busy = true; visible(); busy = false; } }; }
    bool busy = false;
};
static void up(Client *&c, const string &app, const string &nm) { c = new Client; c->name = "publisher"; if (!c->publisher(nm, app)) vx::fail("%s: cannot publish", hist.c_str()); }
static string show(const E &e) { return string(1, KC[e.k]) + std::to_string(e.ts) + " "; }

// ---- every sequence of frames, times and sessions
static int content_roots() { return 7 * 3 * 8; }
static void content_run(int root)
{
    int ai = root % 7, pre = root / 7 % 3, first = root / 21;   // pre: 0 video and audio, 1 video only, 2 audio only
    vx::batch([&] {
        wipe(); hevc = ai == 6; vhs.clear(); ahs.clear(); vx::advance(1000); Stream st; st.ap = &APP[ai == 6 ? 0 : ai]; ROOT = TOP + st.ap->name + "/"; st.name = "s"; uint32_t ts = 1000; st.hook(); Session *s = nullptr;
        auto ev = [&](int k, int var = 0) { E e = mk(k, ts, ai == 5 && var == 4 ? 0 : var); hist += show(e); s->add(e); put(*pub, e); sane(); };
        auto begin = [&] { s = &st.begin(); up(pub, st.ap->name, "s"); if (pre != 2) ev(3); if (pre != 1) ev(4); if (pre != 2) ev(0); if (pre == 2) ev(2); };
        auto end = [&] { s->end(); drop(pub); st.visible(); nofiles(); };
        begin();
        auto step = [&](int a) {
            switch (a) {
            case 0: ts += 520; vx::advance(520); ev(pre == 2 ? 2 : 0, eseq % 5); break;          // key
            case 1: ts += 360; vx::advance(360); ev(pre == 2 ? 2 : 1, eseq % 5); break;          // inter
            case 2: ts += 40; vx::advance(40); ev(pre == 1 ? 1 : 2, eseq % 5); break;            // audio
            case 3: ts += 1040; vx::advance(1040); if (pre != 1) ev(2); ev(pre == 2 ? 2 : 0, eseq % 5); break;  // a second later
            case 4: ts += 4000; vx::advance(4000); ev(pre == 2 ? 2 : 1); break;      // gap
            case 5: if (st.ap->naming == 1) return; ts -= 600; vx::advance(200); ev(pre == 1 ? 0 : 2); break;                          // back
            case 6: hist += "| "; end(); vx::advance(2000); ts = st.ap->naming == 1 ? ts + 3000 : 3000; begin(); break;
            case 7: ts += 40; ev(pre == 2 || (pre == 0 && eseq % 2) ? 4 : 3); break; // new codec header
            }
        };
        step(first); int n = vx::tier_pick(4, 5); for (int i = 0; i < n; i++) step(vx::choose(8));
        vx::note("%s", hist.c_str()); end(); vx::fs_hook = nullptr; sane();
        for (auto &x : st.ss) for (auto &f : x.fr) if (&x == &st.ss.back() && !st.body.count(f.seq)) vx::fail("%s: segment %llu was never listed", hist.c_str(), (unsigned long long) f.seq);
    });
}

// ---- sizes: every layout of a frame in transport packets
static void setup(Stream &st, int ai, const char *name = "s") { wipe(); hevc = false; vhs.clear(); ahs.clear(); vx::advance(1000); st.ap = &APP[ai]; st.name = name; ROOT = TOP + st.ap->name + "/"; st.hook(); }
static int size_roots() { return 6 * 3 * 2; }
static void size_run(int root)
{
    int kind = root % 6, ck = root / 6 % 3, ai = root / 18 ? 3 : 0;      // key, inter, inter with composition time, AAC, MP3, key and audio
    static const uint32_t CK[] = { 16, 128, 65536 };
    std::vector<size_t> sz; for (size_t n = 1; n < (size_t) vx::tier_pick(420, 1200); n++) sz.push_back(n);
    if (kind != 3) for (size_t n = 65480; n < 65560; n++) sz.push_back(n); else for (size_t n = 8170; n < 8200; n++) sz.push_back(n);
    if (kind == 0 || kind == 1) for (size_t n : { 300000, 524000, 1048000, 1048576, 1200000 }) sz.push_back(n);
    if (kind >= 3) while (sz.back() > 60000) sz.pop_back();
    for (size_t at = 0; at < sz.size(); ) {
        Stream st; setup(st, ai); Session *s = &st.begin(); up(pub, st.ap->name, "s"); pub->set_chunk(CK[ck]); uint32_t ts = 1000; hist = "sizes from " + std::to_string(sz[at]) + " kind " + std::to_string(kind);
        auto ev = [&](E e) { s->add(e); put(*pub, e); sane(); };
        ev(mk(3, ts)); if (kind >= 3) ev(mk(kind == 4 ? 5 : 4, ts)); ev(mk(0, ts));
        for (int i = 0; i < 60 && at < sz.size(); i++, at++) {
            size_t n = sz[at]; ts += 40; E e = mk(kind == 0 || kind == 5 ? 0 : kind == 3 ? 2 : kind == 4 ? 5 : 1, ts);
            if (kind == 3 || kind == 4) { e.raw = (kind == 4 ? string("\xff\xfb") : "") + string(n, 'z'); e.data = (kind == 3 ? "\xaf\x01" : "\x2f") + e.raw; if (kind == 3 && e.raw.size() + 7 > 8191) { put(*pub, e); continue; } }
            else { e.nals = { string(1, e.nals[0][0]) + string(n - 1, 'q') }; e.cts = kind == 2 ? 40 : 0; e.data = e.data.substr(0, 2) + be((uint32_t) e.cts, 3) + ext(e.nals); }
            if (n > 1048000 && kind <= 1 && n + 200 > 1048576) { put(*pub, e); continue; } // larger than the largest frame
            ev(e); if (kind == 5) { ts += 1; E a = mk(2, ts); if (i == 0) ev(mk(4, ts)); ev(a); }
        }
        vx::advance(100); s->end(); drop(pub); st.visible(); nofiles(); vx::fs_hook = nullptr; vx::count(1, 60, 60);
    }
    vx::note("%zu sizes", sz.size());
}
// ---- damaged messages
static int malf_roots() { return 10 * 3; }
static void malf_run(int root)
{
    int kind = root % 10, ck = root / 10; static const uint32_t CK[] = { 3, 16, 65536 };
    auto make = [&](Stream &, uint32_t ts) -> E {
        hevc = kind >= 6 && kind <= 8; E e;
        switch (kind) { case 0: e = mk(3, ts); break; case 1: e = mk(4, ts); break; case 2: e = mk(0, ts, 1); break; case 3: e = mk(1, ts, 1); break; case 4: e = mk(2, ts); break; case 5: e = mk(5, ts); break;
        case 6: e = mk(3, ts); break; case 7: e = mk(0, ts, 1); break; case 8: e = mk(1, ts); e.data = e.data.substr(0, 5) + ext({ string("\0\0\0\1\x02\x01zz", 8), string("\0\0\1\x26\x01zz", 7), string("\0\0\0", 3), string("\0", 1) }); break; default: e = mk(0, ts, 4); }
        return e; };
    size_t len; { Stream st; setup(st, 0); len = make(st, 0).data.size(); if (len > 60) len = 60; }
    static const int BY[] = { 0, 1, 2, 5, 0x1f, 0x7f, 0x80, 0xff };
    for (size_t c = 0; c < len + len * 8; c++) for (int aac = 0; aac < 2; aac++) {
        Stream st; setup(st, 0); st.faulty = true; uint32_t ts = 1000; vx::fs_hook = nullptr; up(pub, "seq", "s"); pub->set_chunk(CK[ck]);
        auto raw = [&](int k, uint32_t t) { E e = mk(k, t); if (pub->c->closed) { drop(pub); up(pub, "seq", "s"); put(*pub, mk(3, t)); } put(*pub, e); };
        raw(3, ts); if (aac) raw(4, ts); raw(0, ts); if (aac) raw(2, ts);
        E e = make(st, ts + 20); hevc = false; hist = "kind " + std::to_string(kind) + (aac ? " with audio" : "");
        if (c < len) { e.data = e.data.substr(0, c); hist += " cut to " + std::to_string(c); } else { size_t p = (c - len) / 8; e.data[p] = (char) BY[(c - len) % 8]; hist += " byte " + std::to_string(p) + " is " + std::to_string(BY[(c - len) % 8]); }
        if (!pub->c->closed) put(*pub, e);
        if (!pub->c->closed) { E k = mk(0, ts + 30); put(*pub, k); }
        for (int i = 1; i < 4; i++) { raw(3, ts + 1100 * (uint32_t) i); if (aac) raw(4, ts + 1100 * (uint32_t) i), raw(2, ts + 1100 * (uint32_t) i); raw(0, ts + 1100 * (uint32_t) i); }
        drop(pub); string t = vx::fs_read(st.pl()); Pl p = parse_pl(t); if (!p.ok) vx::fail("%s: playlist %s: '%s'", hist.c_str(), p.err.c_str(), t.c_str());
        if (p.e.empty()) vx::fail("%s: nothing is listed any more", hist.c_str());
        for (auto &x : p.e) { if (x.dur > 10) vx::fail("%s: segment of %f s", hist.c_str(), x.dur); TsFile f = ts_parse(st.plain(x, hist)); if (!f.ok) vx::fail("%s: segment %s: %s", hist.c_str(), x.uri.c_str(), f.err.c_str());
            for (auto &q : f.pes) if ((q.sid & 0xe0) == 0xc0 && kind != 5) { std::vector<Adts> a; if (q.data[0] == '\xff' && (unsigned char) q.data[1] != 0xf1) continue; if (!adts(q.data, a)) vx::fail("%s: segment %s: broken ADTS framing", hist.c_str(), x.uri.c_str()); } }
        sane(); nofiles(); vx::count(1, 1, 1);
    }
    vx::note("kind %d: %zu cuts", kind, len);
}
// ---- the disk fails
static int fault_roots() { return 4 * 5; }
static void fault_run(int root)
{
    static const int AI[] = { 0, 1, 6, 2 }; int ai = AI[root / 5], how = root % 5;    // EIO once, ENOSPC for good, short writes of 1, 100 and half
    int total = 1000;
    for (int at = 0; at < total; at++) {
        Stream st; setup(st, ai, ai == 6 ? "s_low" : "s"); st.faulty = at >= 0; Client L; L.name = "player"; uint32_t ts = 1000; int n = 0; bool hit = false; size_t sent = 0;
        Session *s = &st.begin(); up(pub, st.ap->name, st.name); if (!L.player(st.name, st.ap->name)) vx::fail("player");
        hist = string(st.ap->name) + ": operation " + std::to_string(at) + " fails, way " + std::to_string(how);
        vx::fs_fault = [&](const vx::FsOp &o) -> int { if (o.path.compare(0, TOP.size(), TOP)) return 0; int k = n++; if (how == 1 ? k < at || k > at + 40 : k != at) return 0; if (how >= 2 && (o.kind != vx::FS_WRITE || o.data.size() < 2)) return 0; hit = true; if (k == at) hist += ": " + string(o.kind == vx::FS_WRITE ? "write " : o.kind == vx::FS_RENAME ? "rename " : "open ") + o.path; return how == 0 ? 5 : how == 1 ? 28 : how == 2 ? -1 : how == 3 ? -(int) std::min<size_t>(100, o.data.size() - 1) : -(int) (o.data.size() / 2); };
        auto ev = [&](int k, int v = 0) { E e = mk(k, ts, v); s->add(e); put(*pub, e); sane(); if (pub->c->closed) vx::fail("%s: the publisher was disconnected", hist.c_str()); if (e.k <= 2) sent++; };
        ev(3); ev(4);
        for (int i = 0; i < 8; i++) { ev(2); ev(0); ts += 300; vx::advance(300); ev(1, 4); ts += 300; vx::advance(300); ev(2, 4); ev(1); ts += 500; vx::advance(500); }
        vx::fs_fault = nullptr; for (int i = 0; i < 2; i++) { ev(2); ev(0); ts += 1100; vx::advance(1100); }
        string before = st.lastpl; s->end(); drop(pub); st.visible(); nofiles();
        (void) hit; total = n;
        if (st.lastpl.empty() || !st.shown) vx::fail("%s: no playlist", hist.c_str());
        Pl p = parse_pl(st.lastpl); // the newest fragments were made without a fault
        { string leaf = st.lastpl; Session *q; uint64_t last = p.seq + p.e.size() - 1; (void) q; string b = st.plain(p.e.back(), hist); TsFile f = ts_parse(b); if (!f.ok) vx::fail("%s: the last segment %llu: %s", hist.c_str(), (unsigned long long) last, f.err.c_str()); size_t nk = 0; for (auto &x : f.pes) if (x.rai) nk++; if (nk != 1) vx::fail("%s: the last segment holds %zu key frames", hist.c_str(), nk); }
        size_t got = 0; for (auto &m : L.av()) if (m.data.size() > 2 && (m.data[1] == 1)) got++;
        if (L.c->closed || got != sent) vx::fail("%s: the player got %zu of %zu frames", hist.c_str(), got, sent);
        L.c->fin(); vx::fs_hook = nullptr; vx::pump(); vx::count(1, (uint64_t) n, 1);
    }
    vx::note("%s: %d operations", APP[ai].name, total);
}
// ---- going on from a playlist found on the disk
static int restore_roots() { return 6; }
static void restore_run(int root)
{
    static const int AI[] = { 0, 1, 4, 3, 0, 1 }; int ai = AI[root];
    // a first session, whose directory is kept
    std::map<string, string> disk; string full; std::vector<Ent> old; uint64_t oseq; Stream base; uint64_t nextid;
    { Stream &st = base; setup(st, ai); Session *s = &st.begin(); up(pub, st.ap->name, "s"); uint32_t ts = 1000; for (int i = 0; i < 6; i++) { for (int k : { 3, 0 }) { E e = mk(k, ts); s->add(e); put(*pub, e); } ts += 1100; vx::advance(1100); } s->end(); drop(pub); st.visible(); vx::fs_hook = nullptr; full = vx::fs_read(st.pl()); for (auto &p : vx::fs_list(ROOT)) disk[p] = vx::fs_read(p); Pl p = parse_pl(full); old = p.e; oseq = p.seq; nextid = p.seq + p.e.size(); }
    auto run = [&](const string &text, int64_t exact, const string &what) {
        for (auto &d : disk) if (d.second.empty()) vx::fs_mkdir(d.first); else vx::fs_write(d.first, d.second);
        Stream st; st.ap = &APP[ai]; st.name = "s"; vx::fs_write(st.pl(), text); hist = string(st.ap->name) + ": " + what; vx::advance(1000);
        up(pub, st.ap->name, "s"); uint32_t ts = 500; for (int i = 0; i < 2; i++) { for (int k : { 3, 0 }) put(*pub, mk(k, ts)); ts += 1100; vx::advance(1100); } sane();
        string t = vx::fs_read(st.pl()); Pl p = parse_pl(t); if (!p.ok) vx::fail("%s: playlist %s: '%s'", hist.c_str(), p.err.c_str(), t.c_str()); if (p.e.empty() || p.e.size() > st.ap->win) vx::fail("%s: %zu segments", hist.c_str(), p.e.size());
        for (size_t i = 0; i < p.e.size(); i++) { Ent &e = p.e[i]; string b = st.plain(e, hist); TsFile f = ts_parse(b); if (!f.ok) vx::fail("%s: segment %s: %s", hist.c_str(), e.uri.c_str(), f.err.c_str()); if (i + 1 == p.e.size()) { if (!e.disc || e.dur != 1.1) vx::fail("%s: the new segment is %s, %.3f s", hist.c_str(), e.disc ? "marked" : "not marked as a discontinuity", e.dur); continue; }
            bool ok = false; for (auto &o : old) if (o.uri == e.uri && o.dur == e.dur && o.key == e.key && o.iv == e.iv) ok = true; if (!ok) vx::fail("%s: lists %s of %.3f s with key %s", hist.c_str(), e.uri.c_str(), e.dur, e.key.c_str()); }
        if (exact >= 0) { // as if the first session had gone on
            if (p.seq + p.e.size() != (uint64_t) exact + 1) vx::fail("%s: the new segment has number %llu, the last one was %lld", hist.c_str(), (unsigned long long) (p.seq + p.e.size() - 1), (long long) exact - 1);
            if (p.e.size() != st.ap->win) vx::fail("%s: %zu segments listed", hist.c_str(), p.e.size());
        }
        vx::observe_u64(p.seq * 8 + p.e.size()); drop(pub); nofiles(); vx::count(1, 1, 1);
    };
    if (root < 4) {
        for (size_t cut = 0; cut <= full.size(); cut++) run(full.substr(0, cut), cut == full.size() ? (int64_t) nextid : -1, "playlist cut to " + std::to_string(cut) + " bytes");
        string crlf; for (char c : full) { if (c == '\n') crlf += '\r'; crlf += c; } run(crlf, (int64_t) nextid, "playlist with CRLF");
        for (size_t p = 0; p < full.size(); p++) for (char c : { '\n', '9', '.', 'x', '\0' }) { if (isdigit((unsigned char) full[p])) continue; string t = full; t[p] = c; if (full.rfind(".ts", p) != string::npos || full.find(".ts", p) == p || true) { size_t ls = full.rfind('\n', p); string line = full.substr(ls == string::npos ? 0 : ls + 1, 8); if (line.compare(0, 4, "#EXT") && c == '9') continue; if (!line.compare(0, 7, "#EXTINF") || line.compare(0, 1, "#") || !line.compare(0, 7, "#EXT-X-")) continue; } run(t, -1, "byte " + std::to_string(p) + " of the playlist changed"); }
    } else {
        // the entries lie at every place of a long playlist
        size_t inf = full.find("#EXT-X-DISC"); if (inf == string::npos) inf = full.find("#EXTINF"); string head = full.substr(0, inf), tail = full.substr(inf);
        for (size_t pad = 4096 - head.size() - tail.size() - 2; pad < 4096 - head.size() + 2; pad += (size_t) vx::tier_pick(1, 1)) for (int wide = 0; wide < 2; wide++) { string f = wide ? "#" + string(pad - 2, 'c') + "\n" : ""; if (!wide) { while (f.size() + 20 < pad) f += "# a comment\n"; f += "#" + string(pad - f.size() - 2, 'd') + "\n"; } run(head + f + tail, (int64_t) nextid, "entries " + std::to_string(head.size() + pad) + " bytes into the playlist"); }
        for (size_t n : { 4094, 4095, 4096, 4097, 8192, 10000 }) { run("#EXTM3U\n#" + string(n, 'l') + "\n" + full, -1, "a line of " + std::to_string(n)); run(string(n, 'l'), -1, "one line of " + std::to_string(n)); run(string(n, '\n'), -1, std::to_string(n) + " empty lines"); }
    }
    (void) oseq;
}
// ---- someone who may not publish
static int refused_roots() { return 5 * 6; }
static void refused_run(int root)
{
    int how = root / 6, first = root % 6;       // 0 second publisher, 1 denied address, 2 refused by the callback, 3 callback still pending, 4 second publisher where the first was admitted by the callback
    static const App D = { "deny", 6, 1, 10, false, false, true, false, 0, "", "", "", 0 }, C = { "cb", 6, 1, 10, false, false, true, false, 0, "", "", "", 0 };
    vx::batch([&] {
        Stream st; setup(st, 0); st.ap = how == 0 ? &APP[0] : how == 1 ? &D : &C; ROOT = TOP + st.ap->name + "/"; nserver(); vx::advance(1500); Client *B = nullptr; Session *s = nullptr; uint32_t ts = 100; std::unique_ptr<NReq> pend;
        auto ev = [&](int k) { E e = mk(k, ts); hist += show(e); s->add(e); put(*pub, e); };
        auto step = [&](int k) {
            switch (k) {
            case 0: case 1: case 2:
                if (!pub) { s = &st.begin(); pub = new Client; pub->name = "accepted publisher"; if (!pub->up(st.ap->name, "1935", "10.0.0.1")) vx::fail("up"); pub->publish("s"); vx::pump(); if (how >= 2) nanswer(*nexpect({ "publish/start" }, hist.c_str()), A200); if (!pub->saw_code("NetStream.Publish.Start")) vx::fail("%s: not accepted", hist.c_str()); ev(3); ev(4); }
                ts += k == 0 ? 1040 : 40; ev(k); if (k == 0) ev(2); break;
            case 3:
                if (B || ((how == 0 || how == 4) && !pub)) return;
                B = new Client; B->name = "refused publisher"; if (!B->up(st.ap->name, "1935", "10.0.0.6")) vx::fail("%s: B", hist.c_str()); B->publish("s"); vx::pump(); hist += "other-tries ";
                if (how >= 2) { pend.reset(new NReq(*nexpect({ "publish/start" }, hist.c_str()))); if (how == 2) { nanswer(*pend, A403); pend.reset(); } else if (how == 4) { nanswer(*pend, A200); pend.reset(); } }
                if (B->saw_code("NetStream.Publish.Start")) vx::fail("%s: accepted", hist.c_str()); break;
            case 4:
                if (!B || B->c->closed) return;
                for (int h : { 3, 4, 0, 2 }) { E e = mk(h, ts + 1500); if (h == 3) vhs.pop_back(); if (h == 4) ahs.pop_back(); if (!B->c->closed) put(*B, e); } hist += "other-sends "; break;
            case 5:
                if (!B) return;
                if (!B->c->closed && (eseq & 1)) { B->cmd("deleteStream", { Null(), N(1) }); vx::pump(); if (!B->c->closed) put(*B, mk(0, ts)); }
                drop(B); pend.reset(); hist += "other-goes "; break;
            }
            sane(); st.visible();
            if (st.ss.empty() || st.ss.back().fr.empty()) for (auto &p : vx::fs_list(ROOT)) if (p.size() > ROOT.size()) vx::fail("%s: %s was made for a refused publisher", hist.c_str(), p.c_str());
        };
        step(first); int n = vx::tier_pick(4, 6); for (int i = 0; i < n; i++) step(vx::choose(6));
        vx::note("%s", hist.c_str());
        drop(B); if (s) s->end(); drop(pub); st.visible(); nofiles(); sane(); vx::fs_hook = nullptr; nreset();
    });
}
// ---- where the files go
static int names_roots() { return 8; }
static void names_run(int root)
{
    static const char AL[] = { 'a', '.', '/', '%', '-', '_', '\x81', '?' };
    vx::batch([&] {
        static const int AI[] = { 0, 1, 3, 4, 6 }; int ai = AI[vx::choose(5)]; Stream st; setup(st, ai); vx::fs_hook = nullptr; string nm(1, AL[root]); int n = vx::choose(4); for (int i = 0; i < n; i++) nm += AL[vx::choose(8)]; bool low = ai == 6 && vx::choose(2);
        int rep = n == 3 && nm.substr(0, 4) == string(4, AL[root]) ? 60 : 1; string full; for (int i = 0; i < rep; i++) full += nm; nm = full + (low ? "_low" : ""); hist = string(st.ap->name) + ": stream '" + nm + "'";
        auto before = vx::fs_list("/vxfs/"); pub = new Client; if (!pub->up(st.ap->name, "1935", "10.0.0.1")) vx::fail("up"); pub->publish(nm); vx::pump();
        if (pub->saw_code("NetStream.Publish.Start")) { uint32_t ts = 10; for (int i = 0; i < 3 && !pub->c->closed; i++) { put(*pub, mk(3, ts)); if (!pub->c->closed) put(*pub, mk(0, ts)); ts += 1100; vx::advance(1100); } }
        bool ok = pub->saw_code("NetStream.Publish.Start"); drop(pub);
        for (auto &p : vx::fs_list("/vxfs/")) if (std::find(before.begin(), before.end(), p) == before.end() && (p + "/").compare(0, ROOT.size(), ROOT)) vx::fail("%s writes %s", hist.c_str(), p.c_str());
        string want = nm.substr(0, nm.find('?')); if (ok && !want.empty() && want.find('/') == string::npos && want.find("..") == string::npos && want != ".") { st.name = want; string t = vx::fs_read(st.pl()); Pl p = parse_pl(t); if (!p.ok || p.e.size() != std::min<uint64_t>(3, st.ap->win)) vx::fail("%s: %s: '%s'", hist.c_str(), st.pl().c_str(), t.c_str()); for (auto &e : p.e) { TsFile f = ts_parse(st.plain(e, hist)); if (!f.ok || f.pes.size() != 1) vx::fail("%s: segment %s", hist.c_str(), e.uri.c_str()); } if (ai == 6) { st.lastpl = t; st.variant(); } }
        sane(); nofiles(); vx::observe_u64(ok);
    });
}
// ---- cleaning up
extern "C" int hls_cleanup(const char *prefix);
static int clean_roots() { return 2; }
static void clean_run(int root)
{
    static const char *NM[] = { "a-1.ts", "a.m3u8", "a-1.key", "a.m3u8.bak", "a.mp4", ".x.ts", "ts", "a.tsx", "m3u8", "x.m3u", "xkey", "d/index.m3u8", "d/1.ts", "d/1.key", "d/readme", "e/2.ts", "e/f/3.ts" };
    const string dir = TOP + (root ? "clk/" : "cln/"); const long PL = 20;
    for (long age = 0; age <= 45; age++) for (int sub = 0; sub < 4; sub++) {
        wipe(); vx::fs_mkdir(TOP + "cln"); vx::fs_mkdir(TOP + "clk"); vx::fs_mkdir(dir + "d"); vx::fs_mkdir(dir + "e"); vx::fs_mkdir(dir + "e/f"); vx::fs_mkdir(dir + "g");
        string other = TOP + "seq/1.ts"; vx::fs_mkdir(TOP + "seq"); std::vector<string> have; vx::advance(1000 - vx::now_ms() % 1000);
        for (size_t i = 0; i < sizeof NM / sizeof *NM; i++) if (sub == 0 || (i % 4) == (size_t) sub) { vx::fs_write(dir + NM[i], "x"); have.push_back(NM[i]); }
        vx::fs_write(other, "x"); vx::advance((uint64_t) age * 1000); hist = "files " + std::to_string(age) + " s old"; if (!hls_cleanup(dir.c_str())) vx::fail("no cleanup for %s", dir.c_str());
        for (auto &n : have) {
            string leaf = n.substr(n.rfind('/') == string::npos ? 0 : n.rfind('/') + 1); auto endsw = [&](const char *x) { return leaf.size() >= strlen(x) && !leaf.compare(leaf.size() - strlen(x), strlen(x), x); };
            long max = leaf[0] == '.' ? -1 : endsw(".ts") || endsw(".key") ? 2 * PL : endsw(".m3u8") ? PL : -1; bool ex = vx::fs_exists(dir + n);
            if (max < 0 || age < max) { if (!ex) vx::fail("%s: %s was removed", hist.c_str(), n.c_str()); } else if (age > max && ex) vx::fail("%s: %s is still there", hist.c_str(), n.c_str());
        }
        if (!vx::fs_exists(other)) vx::fail("%s: a file of another directory was removed", hist.c_str()); sane(); vx::count(1, have.size(), 1);
    }
    vx::note("cleanup of %s", dir.c_str());
}
VX_SCENARIOS(
    { "size", size_roots, size_run, "sizes 1-420 (1200) and around 64 KB, the ADTS limit and the largest frame, of key, inter, inter with composition time, AAC, MP3, key with audio x input chunks of 16, 128, 64K bytes x plain or encrypted" },
    { "malf", malf_roots, malf_run, "10 messages (AVC/HEVC/AAC headers, frames of several NAL units, AAC, MP3) cut at every length, and with each of the first 60 bytes replaced by 8 values, x with or without audio x input chunks of 3, 16, 64K bytes" },
    { "fault", fault_roots, fault_run, "4 applications x every file operation of a 10-fragment session x error once, disk full for 40 operations, short writes of 1, 100 bytes and half, with a live player" },
    { "restore", restore_roots, restore_run, "a playlist cut at every byte, with CRLF, with bytes changed, with its entries at every place around the 4096-byte read and with overlong lines, found by the next publisher, x 4 applications" },
    { "refused", refused_roots, refused_run, "5 ways of refusing (name taken, address denied, refused by on_publish, still pending, taken after a callback) x every sequence of 5 (7) steps of frames of the accepted publisher and tries, media and leaving of the other" },
    { "names", names_roots, names_run, "every stream name of up to 4 characters over letter, dot, slash, percent, dash, underscore, byte, question mark, and 240-character repeats, x 5 applications" },
    { "clean", clean_roots, clean_run, "17 files of every kind of name, in nested directories, x ages of 0-45 s around the limits x subsets" },

    { "content", content_roots, content_run, "7 applications (sequential, HEVC, system-time nested with base URL, timestamp aligned, encrypted, encrypted nested, not continuous) x video and audio, video only, audio only x every sequence of 4 (6) of key frame, inter frame, audio, a second later, a gap over the longest fragment, stepping back, republishing, new codec header, with 5 kinds of frame; the disk is checked at every file operation" }
)
