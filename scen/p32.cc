// P32: live_record writes transport streams and an index of their parts.
#include "http.h"
#include "media.h"
#include "notify.h"
#include <algorithm>
#include <time.h>
using namespace rt;
static const string TOP = "/vxfs/rec/"; static const string PATH = "/vxfs/rec/lr/";
static string hist; static Client *pub;
static void drop(Client *&c) { if (!c) return; if (!c->c->closed) c->c->fin(); vx::pump(); delete c; c = nullptr; }
static void wipe() { vx::fs_fault = nullptr; vx::fs_hook = nullptr; drop(pub); nserve(); nreset(); for (auto &p : vx::fs_list(TOP)) vx::fs_unlink(p); vx::fs_mkdir("/vxfs/rec/lr"); vx::bad_fds.clear(); hist = ""; eseq = 0; hevc = false; vhs.clear(); ahs.clear(); vx::advance(1000 + (20000 - vx::now_ms() % 10000) % 10000); }
static void sane()
{
    if (!vx::bad_fds.empty()) vx::fail("%s: %s", hist.c_str(), vx::bad_fds[0].c_str());
    for (auto &d : vx::denied) if (d.compare(0, 4, "/tmp")) vx::fail("%s: opened %s", hist.c_str(), d.c_str());
}
static void nofiles() { for (auto &f : vx::open_files()) if (!f.compare(0, TOP.size(), TOP)) vx::fail("%s: %s is still open after the publisher left", hist.c_str(), f.c_str()); }
struct App { const char *name; long interval; bool on; };
static const App APP[] = { { "lr", 10, true }, { "lb", 7, true }, { "lc", 10, false }, { "ln", 10, false }, { "lo", 10, true }, { "deny", 10, true }, { "ld", 10, true } };
static const long MIN = 2000, MAX = 4000;

struct Part { uint64_t st = 0, en = 0; std::vector<size_t> ev; bool done = false; int ses = 0; };
struct File { long T; std::vector<Part> parts; };
// the recordings of one stream, over all its sessions
struct Rec {
    const App *ap; string name = "s"; std::vector<E> ev; std::vector<int> hv, ha; std::map<long, File> files; int open = 0; long last = 0; uint64_t base = 0, start = 0, endt = 0; int V = -1, A = -1, ses = 0; bool faulty = false; size_t updates = 0;
    std::map<string, string> lines; std::map<int, std::map<int, int>> ccs; std::map<long, size_t> seen;
    static string date(long T) { time_t t = T; struct tm tm; localtime_r(&t, &tm); char b[32]; snprintf(b, sizeof b, "%04d%02d%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday); return b; }
    string dir() const { return PATH + "a/" + ap->name + "/" + name + "/"; }
    string ts(long T) const { return dir() + date(T) + "/" + name + "_" + std::to_string(T) + ".ts"; }
    string index(long T) const { return dir() + "index/" + date(T) + "/" + name + "-" + std::to_string(T) + ".m3u8"; }
    Part *cur() { auto &p = files[last].parts; return p.empty() ? nullptr : &p.back(); }
    void newpart(uint64_t t) { auto &f = files[last]; f.T = last; f.parts.emplace_back(); f.parts.back().st = t; f.parts.back().ses = ses; start = t; }
    void closepart() { Part *p = cur(); if (p->ev.empty()) { files[last].parts.pop_back(); return; } p->en = endt; p->done = true; }
    void slice(uint64_t c) { long L = (long) (c / 1000) / ap->interval * ap->interval; closepart(); if (L > last) { last = L; updates++; } newpart(c); }
    void begin() { open = ap->on ? 1 : 0; last = 0; V = A = -1; ses++; }
    void add(const E &e) {
        ev.push_back(e); size_t i = ev.size() - 1; if (e.k == 3) V = e.hv; if (e.k == 4) A = e.ha; hv.push_back(V); ha.push_back(A);
        if (e.k > 2 || !open) return; if (e.k == 2 ? A < 0 : V < 0) return;
        if (open == 2) { if (e.k == 2 ? V < 0 : e.k == 0) open = 1; else return; }
        if (!last) { uint64_t now = vx::now_ms(); last = (long) (now / 1000) / ap->interval * ap->interval; base = now - e.ts; endt = now; newpart(now); }
        uint64_t c = base + e.ts; if (e.k == 2 && e.raw.size() + 7 > 8191) return;
        if (e.k == 2 ? V < 0 && c > start + MIN : e.k == 0 ? c > start + MIN : c > start + MAX) slice(c);
        cur()->ev.push_back(i); endt = c;
    }
    void stop() { if (last) { if (cur()) closepart(); } open = 0; last = 0; }
    void ctl(bool on) { if (on) { if (!open) open = 2; } else if (open) stop(); }
    string list(const Part &p) { string o; for (auto i : p.ev) o += " " + string(1, KC[ev[i].k]) + std::to_string(i); return o; }
    // everything the indexes say at this moment
    size_t visible() {
        size_t total = 0;
        for (auto &p : vx::fs_list(dir() + "index/")) {
            if (p.size() < 6 || p.compare(p.size() - 5, 5, ".m3u8")) continue; size_t m = p.rfind('-'); long T = atol(p.c_str() + m + 1); string t = vx::fs_read(p); if (p != index(T)) vx::fail("%s: index %s should be %s", hist.c_str(), p.c_str(), index(T).c_str());
            if (lines[p] == t) { total += seen[T]; continue; }
            if (t.compare(0, lines[p].size(), lines[p])) vx::fail("%s: %s changed from '%s' to '%s'", hist.c_str(), p.c_str(), lines[p].c_str(), t.c_str());
            if (!vx::fs_exists(ts(T))) vx::fail("%s: %s has entries, %s does not exist", hist.c_str(), p.c_str(), ts(T).c_str());
            string b = vx::fs_read(ts(T)); size_t q = 0, n = 0; uint64_t expect = 376; bool torn = false;
            while (q < t.size()) {
                size_t e = t.find('\n', q); if (e == string::npos) { if (!faulty) vx::fail("%s: %s ends in the middle of a line: '%s'", hist.c_str(), p.c_str(), t.substr(q).c_str()); torn = true; break; }
                string l = t.substr(q, e - q); q = e + 1; string pre = name + "_" + std::to_string(T) + ".ts?startsize="; unsigned long long a, z, st, en; int len = -1;
                if (l.compare(0, pre.size(), pre) || sscanf(l.c_str() + pre.size(), "%llu&endsize=%llu&starttime=%llu&endtime=%llu%n", &a, &z, &st, &en, &len) != 4 || (size_t) len + pre.size() != l.size()) vx::fail("%s: %s: bad line '%s'", hist.c_str(), p.c_str(), l.c_str());
                if (a != expect || z < a || (z + 1) % 188 || z >= b.size()) vx::fail("%s: %s: part '%s' of a file of %zu bytes, should start at %llu", hist.c_str(), p.c_str(), l.c_str(), b.size(), (unsigned long long) expect);
                expect = z + 1; n++; if (n <= seen[T]) continue; if (faulty) continue;
                auto &ps = files[T].parts; if (n > ps.size() || !ps[n - 1].done) vx::fail("%s: %s: line %zu, only%s parts were made", hist.c_str(), p.c_str(), n, std::to_string(ps.size()).c_str());
                Part &x = ps[n - 1]; if (st != x.st || en != x.en) vx::fail("%s: %s: line %zu is from %llu to %llu, should be %llu to %llu", hist.c_str(), p.c_str(), n, st, en, (unsigned long long) x.st, (unsigned long long) x.en);
                TsFile f = ts_parse(b.substr(0, 376) + b.substr(a, z + 1 - a), &ccs[x.ses]); if (!f.ok) vx::fail("%s: %s line %zu: %s", hist.c_str(), p.c_str(), n, f.err.c_str());
                for (size_t i = 0; i < std::max(f.pes.size(), x.ev.size()); i++) {
                    if (i == f.pes.size()) vx::fail("%s: %s line %zu holds %zu frames, not%s", hist.c_str(), p.c_str(), n, i, list(x).c_str()); if (i == x.ev.size()) vx::fail("%s: %s line %zu holds %zu frames, should hold%s", hist.c_str(), p.c_str(), n, f.pes.size(), list(x).c_str());
                    E &e = ev[x.ev[i]]; Pes &s = f.pes[i]; bool v = (s.sid & 0xf0) == 0xe0; string err = v != (e.k <= 1) ? string("is the wrong kind") : v ? badvideo(s, e, vhs[(size_t) hv[x.ev[i]]]) : badaudio(s, e, &ahs[(size_t) ha[x.ev[i]]]);
                    if (!err.empty()) vx::fail("%s: %s line %zu, frame %zu of%s: %s", hist.c_str(), p.c_str(), n, i, list(x).c_str(), err.c_str());
                }
                vx::observe_u64(x.ev.size());
            }
            seen[T] = n; total += n; if (!torn) lines[p] = t;
        }
        return total;
    }
    void finished() {
        sane(); nofiles(); visible(); if (faulty) return;
        for (auto &f : files) { size_t n = 0; for (auto &p : f.second.parts) if (p.done) n++; if (seen[f.first] != n) vx::fail("%s: %s lists %zu of %zu parts", hist.c_str(), index(f.first).c_str(), seen[f.first], n);
            if (n) { string t = vx::fs_read(index(f.first)); size_t z = t.rfind("endsize="); if (strtoull(t.c_str() + z + 8, nullptr, 10) + 1 != vx::fs_read(ts(f.first)).size()) vx::fail("%s: %s holds more than its index says", hist.c_str(), ts(f.first).c_str()); } }
        for (auto &p : vx::fs_list(dir())) if (p.size() > 3 && !p.compare(p.size() - 3, 3, ".ts")) { long T = atol(p.c_str() + p.rfind('_') + 1); if (!files.count(T) || p != ts(T)) vx::fail("%s: unexpected file %s", hist.c_str(), p.c_str()); }
    }
    bool busy = false; void hook() { vx::fs_hook = [this](const char *, const string &) { if (!busy) { busy = true; visible(); busy = false; } }; }
};
static void up(Client *&c, const string &app, const string &nm) { c = new Client; c->name = "publisher"; if (!c->publisher(nm, app)) vx::fail("%s: cannot publish", hist.c_str()); }
static string show(const E &e) { return string(1, KC[e.k]) + std::to_string(e.ts) + " "; }
static string control(const string &what, const string &app) { Http h; h.name = "control"; h.get("/control/record/" + what + "?srv=a&app=" + app + "&name=s", "1.0"); vx::pump(); h.check(); string r = std::to_string(h.status); if (!h.c->closed) h.c->fin(); vx::pump(); return r; }

// ---- every sequence of frames, times, sessions and control requests
static int content_roots() { return 3 * 3 * 2 * 10; }
static void content_run(int root)
{
    int ai = root % 3, pre = root / 3 % 3, pat = root / 9 % 2, first = root / 18;   // pre: 0 video and audio, 1 video only, 2 audio only
    vx::batch([&] {
        wipe(); Rec r; r.ap = &APP[ai]; uint32_t ts = pat ? 0xfff00000u : 1000; r.hook();
        auto ev = [&](int k, int var = 0) { E e = mk(k, ts, var); hist += show(e); r.add(e); put(*pub, e); sane(); };
        auto begin = [&] { r.begin(); up(pub, r.ap->name, "s"); if (pre != 2) ev(3); if (pre != 1) ev(4); };
        auto end = [&] { r.stop(); drop(pub); r.finished(); };
        auto pass = [&](uint32_t t) { ts += t; vx::advance(t); };
        begin();
        auto step = [&](int a) {
            switch (a) {
            case 0: pass(520); ev(pre == 2 ? 2 : 0, eseq % 5); break;
            case 1: pass(360); ev(pre == 2 ? 2 : 1, eseq % 5); break;
            case 2: pass(40); ev(pre == 1 ? 1 : 2, eseq % 5); break;
            case 3: pass(2100); if (pre != 1) ev(2); ev(pre == 2 ? 2 : 0, eseq % 5); break;
            case 4: pass(4100); ev(pre == 2 ? 2 : 1); break;
            case 5: ts -= 600; vx::advance(200); ev(pre == 1 ? 0 : 2); break;
            case 6: hist += "| "; end(); vx::advance(2000); ts = pat ? ts + 3000 : 3000; begin(); break;
            case 7: ts += 40; ev(pre == 2 || (pre == 0 && eseq % 2) ? 4 : 3); break;
            case 8: { string s = control("start", r.ap->name); hist += "start "; if (s != "200") vx::fail("%s: start answered %s", hist.c_str(), s.c_str()); r.ctl(true); break; }
            case 9: { r.ctl(false); string s = control("stop", r.ap->name); hist += "stop "; if (s != "200") vx::fail("%s: stop answered %s", hist.c_str(), s.c_str()); break; }
            }
        };
        if (ai == 2) step(8);
        step(first); int n = vx::tier_pick(3, 5); for (int i = 0; i < n; i++) step(vx::choose(10));
        vx::note("%s", hist.c_str()); end(); vx::fs_hook = nullptr; sane();
    });
}
// ---- every file operation fails
static int fault_roots() { return 2 * 5; }
static void fault_run(int root)
{
    int ai = root / 5, how = root % 5, total = 1000;
    for (int at = 0; at < total; at++) {
        wipe(); Rec r; r.ap = &APP[ai]; r.faulty = true; r.hook(); Client L; L.name = "player"; uint32_t ts = 1000; int n = 0; size_t sent = 0; bool reset = false;
        r.begin(); up(pub, r.ap->name, "s"); if (!L.player("s", r.ap->name)) vx::fail("player");
        hist = string(r.ap->name) + ": operation " + std::to_string(at) + " fails, way " + std::to_string(how);
        vx::fs_fault = [&](const vx::FsOp &o) -> int { if (o.path.compare(0, TOP.size(), TOP)) return 0; int k = n++; if (how == 1 ? k < at || k > at + 40 || o.kind == vx::FS_TRUNC : k != at) return 0; if (how >= 2 && (o.kind != vx::FS_WRITE || o.data.size() < 2)) return 0; if (k == at) hist += ": " + string(o.kind == vx::FS_WRITE ? "write " : o.kind == vx::FS_RENAME ? "rename " : "open ") + o.path; return how == 0 ? 5 : how == 1 ? 28 : how == 2 ? -1 : how == 3 ? -(int) std::min<size_t>(100, o.data.size() - 1) : -(int) (o.data.size() / 2); };
        auto ev = [&](int k, int v = 0) { E e = mk(k, ts, v); put(*pub, e); sane(); if (pub->c->closed) vx::fail("%s: the publisher was disconnected", hist.c_str()); if (e.k <= 2) sent++; return e; };
        ev(3); ev(4);
        for (int i = 0; i < 14; i++) { ev(2); ev(0); ts += 300; vx::advance(300); ev(1, 4); ts += 300; vx::advance(300); ev(2, 4); ev(1); ts += 500; vx::advance(500); }
        vx::fs_fault = nullptr; E lastk; for (int i = 0; i < 3; i++) { ev(2); lastk = ev(0); ts += 2500; vx::advance(2500); } (void) reset;
        total = n; drop(pub); r.finished();
        // files hold whole packets, and the last frames, published without a fault, are there
        bool found = false; string key = lastk.nals[0];
        for (auto &p : vx::fs_list(PATH)) if (p.size() > 3 && !p.compare(p.size() - 3, 3, ".ts")) { string b = vx::fs_read(p); if (b.size() % 188) vx::fail("%s: %s has %zu bytes", hist.c_str(), p.c_str(), b.size()); for (size_t o = 0; o < b.size(); o += 188) if (b[o] != 0x47) vx::fail("%s: %s: no sync byte at %zu", hist.c_str(), p.c_str(), o); if (b.size()) { TsFile f = ts_parse(b, nullptr, false); if (!f.ok) vx::fail("%s: %s: %s", hist.c_str(), p.c_str(), f.err.c_str()); for (auto &x : f.pes) if (x.data.find(key) != string::npos) found = true; } }
        if (!found) vx::fail("%s: the last key frame was not recorded", hist.c_str());
        size_t got = 0; for (auto &m : L.av()) if (m.data.size() > 2 && m.data[1] == 1) got++; if (L.c->closed || got != sent) vx::fail("%s: the player got %zu of %zu frames", hist.c_str(), got, sent);
        L.c->fin(); vx::fs_hook = nullptr; vx::pump(); vx::count(1, (uint64_t) n, 1);
    }
    vx::note("%s: %d operations", APP[ai].name, total);
}
// ---- sizes and broken media
static int size_roots() { return 4 * 3 * 2; }
static void size_run(int root)
{
    int kind = root % 4, ck = root / 4 % 3, ai = root / 12; static const uint32_t CK[] = { 128, 4096, 65536 };
    std::vector<size_t> sz; for (size_t n = 1; n < (size_t) vx::tier_pick(420, 1200); n++) sz.push_back(n); if (kind != 3) for (size_t n = 65480; n < 65560; n++) sz.push_back(n); else for (size_t n = 8170; n < 8200; n++) sz.push_back(n); if (kind <= 1) for (size_t n : { 300000, 1048570, 2000000 }) sz.push_back(n);
    for (size_t at = 0; at < sz.size(); at += 60) {
        wipe(); Rec r; r.ap = &APP[ai ? 1 : 0]; r.hook(); uint32_t ts = 1000; r.begin(); up(pub, r.ap->name, "s"); pub->set_chunk(CK[ck]); hist = "sizes from " + std::to_string(sz[at]) + " kind " + std::to_string(kind);
        auto ev = [&](const E &e) { r.add(e); put(*pub, e); if (pub->c->closed) vx::fail("%s: disconnected", hist.c_str()); };
        ev(mk(3, ts)); ev(mk(4, ts)); ev(mk(0, ts));
        for (size_t i = at; i < sz.size() && i < at + 60; i++) {
            size_t n = sz[i]; ts += 40; E e = mk(kind == 0 ? 0 : kind == 3 ? 2 : 1, ts);
            if (kind == 3) { e.raw = string(n, 'z'); e.data = "\xaf\x01" + e.raw; } else { e.nals = { string(1, e.nals[0][0]) + string(n - 1, 'q') }; e.cts = kind == 2 ? 40 : 0; e.data = e.data.substr(0, 2) + be((uint32_t) e.cts, 3) + ext(e.nals); }
            ev(e);
        }
        r.stop(); drop(pub); r.finished(); vx::fs_hook = nullptr; vx::count(1, 60, 60);
    }
    vx::note("kind %d: %zu sizes", kind, sz.size());
}
static int malf_roots() { return 6 * 3; }
static void malf_run(int root)
{
    int kind = root % 6, ck = root / 6; static const uint32_t CK[] = { 3, 16, 65536 };
    auto make = [&](uint32_t ts) -> E { E e; switch (kind) { case 0: e = mk(3, ts); break; case 1: e = mk(4, ts); break; case 2: e = mk(0, ts, 1); break; case 3: e = mk(1, ts, 1); break; case 4: e = mk(2, ts); break; default: e = mk(1, ts); e.data = e.data.substr(0, 5) + ext({ string("\0\0\0\1\x02\x01zz", 8), string("\x09"), string("\0", 1) }); } return e; };
    wipe(); size_t len = std::min<size_t>(60, make(0).data.size()); static const int BY[] = { 0, 1, 2, 5, 0x1f, 0x7f, 0x80, 0xff };
    for (size_t c = 0; c < len + len * 8; c++) for (int aac = 0; aac < 2; aac++) {
        wipe(); Rec r; r.ap = &APP[0]; r.faulty = true; uint32_t ts = 1000; up(pub, "lr", "s"); pub->set_chunk(CK[ck]);
        auto raw = [&](int k, uint32_t t) { E e = mk(k, t); if (pub->c->closed) { drop(pub); up(pub, "lr", "s"); put(*pub, mk(3, t)); if (aac) put(*pub, mk(4, t)); } put(*pub, e); return e; };
        bool lead = (c + (size_t) aac) % 3; raw(3, ts); if (aac) raw(4, ts); if (lead) { raw(0, ts); if (aac) raw(2, ts); }
        E e = make(ts + 20); hist = "kind " + std::to_string(kind) + (aac ? " with audio" : "");
        if (c < len) { e.data = e.data.substr(0, c); hist += " cut to " + std::to_string(c); } else { size_t p = (c - len) / 8; e.data[p] = (char) BY[(c - len) % 8]; hist += " byte " + std::to_string(p) + " is " + std::to_string(BY[(c - len) % 8]); }
        put(*pub, e); if (pub->c->closed && (kind == 2 || kind == 3 || kind == 4 || kind == 5)) vx::fail("%s: disconnected", hist.c_str());
        if (!pub->c->closed) put(*pub, mk(0, ts + 30));
        E k; raw(3, ts + 40); if (aac) raw(4, ts + 40); for (uint32_t i = 1; i < 3; i++) { if (aac) raw(2, ts + 1100 * i); k = raw(0, ts + 1100 * i); vx::advance(1100); }
        drop(pub); r.finished(); bool found = false; for (auto &p : vx::fs_list(PATH)) if (p.size() > 3 && !p.compare(p.size() - 3, 3, ".ts")) { string b = vx::fs_read(p); TsFile f = ts_parse(b, nullptr, true); if (!f.ok) { f = ts_parse(b, nullptr, false); if (!f.ok && f.err.find("not in the PMT") != string::npos) { found = true; break; } if (!f.ok) vx::fail("%s: %s: %s", hist.c_str(), p.c_str(), f.err.c_str()); } for (auto &x : f.pes) { if (x.data.find(k.nals[0]) != string::npos) found = true; if ((x.sid & 0xe0) == 0xc0) { std::vector<Adts> a; if (!adts(x.data, a) || a.size() != 1) vx::fail("%s: broken ADTS framing", hist.c_str()); } } }
        if (!found) vx::fail("%s: the last key frame was not recorded", hist.c_str()); vx::count(1, 1, 1);
    }
    vx::note("kind %d: %zu cuts", kind, len);
}
// ---- stream names
static int names_roots() { return 8; }
static void names_run(int root)
{
    static const char AL[] = { 'a', '.', '/', '%', '-', '_', '\x81', '?' };
    vx::batch([&] {
        wipe(); Rec r; r.ap = &APP[0]; string nm(1, AL[root]); int n = vx::choose(4); for (int i = 0; i < n; i++) nm += AL[vx::choose(8)];
        if (n == 3 && nm == string(4, AL[root])) { string f; for (int i = 0; i < 60; i++) f += nm; nm = f; } hist = "stream '" + nm + "'";
        auto before = vx::fs_list("/vxfs/"); pub = new Client; if (!pub->up("lr", "1935", "10.0.0.1")) vx::fail("up"); pub->publish(nm); vx::pump(); bool ok = pub->saw_code("NetStream.Publish.Start"); r.begin(); r.name = nm.substr(0, nm.find('?'));
        if (ok) { uint32_t ts = 10; for (int i = 0; i < 3; i++) { for (int k : { 3, 0 }) { E e = mk(k, ts); if (!pub->c->closed) { put(*pub, e); r.add(e); } } ts += 3000; vx::advance(3000); } }
        if (ok && pub->c->closed) vx::fail("%s: disconnected", hist.c_str());
        r.stop(); drop(pub); string R = r.dir(); for (auto &p : vx::fs_list("/vxfs/")) if (std::find(before.begin(), before.end(), p) == before.end() && (p + "/").compare(0, std::min(p.size() + 1, PATH.size() + 5), (PATH + "a/lr/").substr(0, p.size() + 1))) vx::fail("%s writes %s", hist.c_str(), p.c_str());
        sane(); nofiles(); if (ok && !r.name.empty() && r.name.find('/') == string::npos && r.name.find("..") == string::npos && r.name != ".") r.finished();
        vx::observe_u64(ok);
    });
}
// ---- who may record: on_record, refused publishers
static int gate_roots() { return 2 * 5 * 6; }
static void gate_run(int root)
{
    static const int AK[] = { A200, A403, A500, ACLOSE, ATIMEOUT }; int ai = 3 + root % 2, an = AK[root / 2 % 5], first = root / 10;
    vx::batch([&] {
        wipe(); nserver(); Rec r; r.ap = &APP[ai]; uint32_t ts = 1000; r.hook(); bool pend = false, told = false; size_t upd = 0;
        auto drain = [&](const char *when) { nserve(); for (; nseen < nreq.size(); nseen++) { NReq &q = nreq[nseen]; string s = q.call + "/" + q.act;
            if (q.q["app"] != r.ap->name || q.q["name"] != "s") vx::fail("%s: %s names %s/%s", hist.c_str(), s.c_str(), q.q["app"].c_str(), q.q["name"].c_str());
            if (s == "record/start") { if (pend || told) vx::fail("%s: asked again", hist.c_str()); pend = true; }
            else if (s == "record/update") { upd++; if (!told) vx::fail("%s: update without a start", hist.c_str()); if (!vx::fs_exists(q.q["file"]) || !vx::fs_exists(q.q["index"])) vx::fail("%s: update names %s and %s", hist.c_str(), q.q["file"].c_str(), q.q["index"].c_str()); nanswer(q, A200); }
            else if (s == "record/done") { if (!told) vx::fail("%s: done %s", hist.c_str(), when); told = false; nanswer(q, A200); }
            else vx::fail("%s: unexpected %s", hist.c_str(), s.c_str()); } vx::pump(); };
        auto ev = [&](int k) { E e = mk(k, ts); hist += show(e); r.add(e); put(*pub, e); sane(); };
        bool ran = false, cancelled = false;
        auto step = [&](int a) {
            if (!pub) {
                if (a != 0) return; hist += "publish "; r.begin(); cancelled = false; pub = new Client; pub->name = "publisher"; if (!pub->up(r.ap->name, "1935", "10.0.0.1")) vx::fail("up"); pub->publish("s"); vx::pump(); told = false; drain("at publish"); if (!pend) vx::fail("%s: not asked", hist.c_str());
                if (pub->saw_code("NetStream.Publish.Start")) vx::fail("%s: started before the answer", hist.c_str()); return; }
            if (pend) {
                if (a == 5) { hist += "leave "; pend = false; drop(pub); r.stop(); nserve(); while (nseen < nreq.size()) { NReq &q = nreq[nseen++]; if (q.act != "done") vx::fail("%s: %s", hist.c_str(), q.act.c_str()); } vx::advance(4000); r.finished(); return; }
                if (a == 1) { if (pub->c->closed) return; for (int k : { 3, 0 }) { E e = mk(k, ts); if (k == 3) vhs.pop_back(); put(*pub, e); } hist += "early "; return; }
                if (a != 0) return;
                NReq q = nreq.back(); hist += string("answer ") + AN[an] + " "; pend = false; told = true; nanswer(q, an); vx::pump(); if (an == ATIMEOUT) vx::advance(200); r.open = an == A200 ? 1 : afailed(an) ? r.ap->on : 0; if (!pub->saw_code("NetStream.Publish.Start")) vx::fail("%s: the publisher got no answer", hist.c_str());
                ev(3); ev(4); drain("after the answer"); ran = true; return;
            }
            size_t u0 = r.updates, n0 = upd; bool rec = r.open != 0;
            switch (a) {
            case 0: ts += 40; vx::advance(40); ev(0); ev(2); break;
            case 1: ts += 2500; vx::advance(2500); ev(0); break;
            case 2: ts += 11000; vx::advance(11000); ev(0); break;
            case 3: hist += "start "; r.ctl(true); if (control("start", r.ap->name) != "200") vx::fail("%s: not 200", hist.c_str()); break;
            case 4: hist += "stop "; r.ctl(false); if (control("stop", r.ap->name) != "200") vx::fail("%s: not 200", hist.c_str()); drain("stop"); if (rec && told) vx::fail("%s: not told of the end", hist.c_str()); if (rec) cancelled = true; break;
            case 5: hist += "leave "; r.stop(); drop(pub); drain("leave"); if (rec && told) vx::fail("%s: not told of the end", hist.c_str()); r.finished(); vx::advance(4000); told = false; break;
            }
            drain("during"); if (!cancelled && a != 4 && a != 5 && r.updates - u0 != upd - n0) vx::fail("%s: %zu updates for %zu rotations", hist.c_str(), upd - n0, r.updates - u0);
        };
        step(0); step(first); int n = vx::tier_pick(4, 6); for (int i = 0; i < n; i++) step(vx::choose(6));
        vx::note("%s", hist.c_str()); if (pub) step(5); vx::fs_hook = nullptr; nreset(); sane(); vx::observe_u64(ran);
    });
}
// ---- refused publishers
static int refused_roots() { return 2 * 6; }
static void refused_run(int root)
{
    int how = root / 6, first = root % 6;
    vx::batch([&] {
        wipe(); Rec r; r.ap = &APP[how ? 5 : 0]; r.hook(); Client *B = nullptr; uint32_t ts = 100;
        auto ev = [&](int k) { E e = mk(k, ts); hist += show(e); r.add(e); put(*pub, e); };
        auto step = [&](int k) {
            switch (k) {
            case 0: case 1: case 2:
                if (!pub) { r.begin(); pub = new Client; pub->name = "accepted publisher"; if (!pub->up(r.ap->name, "1935", "10.0.0.1")) vx::fail("up"); pub->publish("s"); vx::pump(); if (!pub->saw_code("NetStream.Publish.Start")) vx::fail("%s: not accepted", hist.c_str()); ev(3); ev(4); }
                ts += k == 0 ? 2100 : 40; vx::advance(k == 0 ? 2100 : 40); ev(k); break;
            case 3: if (B || (!how && !pub)) return; B = new Client; B->name = "refused publisher"; if (!B->up(r.ap->name, "1935", "10.0.0.6")) vx::fail("B"); B->publish("s"); vx::pump(); hist += "other-tries "; if (B->saw_code("NetStream.Publish.Start")) vx::fail("%s: accepted", hist.c_str()); break;
            case 4: if (!B || B->c->closed) return; for (int h : { 3, 4, 0, 2 }) { E e = mk(h, ts + 1500); if (h == 3) vhs.pop_back(); if (h == 4) ahs.pop_back(); if (!B->c->closed) put(*B, e); } hist += "other-sends "; break;
            case 5: if (!B) return; if (!B->c->closed && (eseq & 1)) { B->cmd("deleteStream", { Null(), N(1) }); vx::pump(); if (!B->c->closed) put(*B, mk(0, ts)); } drop(B); hist += "other-goes "; break;
            }
            sane(); r.visible(); if (r.files.empty()) for (auto &p : vx::fs_list(PATH)) if (p.size() > 3 && !p.compare(p.size() - 3, 3, ".ts")) vx::fail("%s: %s was made for a refused publisher", hist.c_str(), p.c_str());
        };
        step(first); int n = vx::tier_pick(4, 6); for (int i = 0; i < n; i++) step(vx::choose(6));
        vx::note("%s", hist.c_str()); drop(B); r.stop(); drop(pub); r.finished(); vx::fs_hook = nullptr;
    });
}
VX_SCENARIOS(
    { "content", content_roots, content_run, "3 applications (10 s files, 7 s files, started by the control interface) x video and audio, video only, audio only x times from 1 s or wrapping below 2^32 x every sequence of 4 (6) of key frame, inter frame, audio, long pause, gap over the longest part, stepping back, republishing, new codec header, start, stop; the disk is read at every file operation" },
    { "fault", fault_roots, fault_run, "2 applications x every file operation of a session of several records x error once, disk full for 40 operations, short writes of 1, 100 bytes and half, with a live player" },
    { "refused", refused_roots, refused_run, "name taken or address denied x every sequence of 5 (7) steps of frames of the accepted publisher and tries, media and leaving of the other" },
    { "size", size_roots, size_run, "sizes 1-420 (1200) and around 64 KB, the ADTS limit and the largest frame, of key, inter, inter with composition time, AAC x input chunks of 128, 4K, 64K bytes x two file lengths" },
    { "malf", malf_roots, malf_run, "6 messages (AVC and AAC headers, frames of several NAL units, AAC, frames with start codes inside) cut at every length, and with each of the first 60 bytes replaced by 8 values, x with or without audio x input chunks of 3, 16, 64K bytes" },
    { "names", names_roots, names_run, "every stream name of up to 4 characters over letter, dot, slash, percent, dash, underscore, byte, question mark, and 240-character repeats" },

    { "gate", gate_roots, gate_run, "2 applications with on_record (record by default off, on) x accepted, refused, failed, closed, unanswered x every sequence of 5 (7) of answer, media before the answer, frames, pauses, rotation, start, stop, leaving, publishing again" }
)
