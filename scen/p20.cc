// P20: recordings hold what was published, whatever happens to the disk, the process or a second publisher.
#include "live.h"
#include "http.h"
#include "flv.h"
#include "notify.h"
static string hist; static Client *L; static int eseq;
static void drop(Client *&c) { if (!c) return; if (!c->c->closed) c->c->fin(); vx::pump(); delete c; c = nullptr; }
static void wipe() { vx::fs_fault = nullptr; drop(L); drop(pub); nserve(); nreset(); for (auto &p : vx::fs_list("/vxfs/rec/")) vx::fs_unlink(p); vx::bad_fds.clear(); hist = ""; ev.clear(); eseq = 0; }
static void sane()
{
    if (!vx::bad_fds.empty()) vx::fail("%s: %s", hist.c_str(), vx::bad_fds[0].c_str());
    for (auto &d : vx::denied) if (d.compare(0, 4, "/tmp")) vx::fail("%s: opened %s", hist.c_str(), d.c_str());
}
static void nofiles() { for (auto &f : vx::open_files()) if (!f.compare(0, 10, "/vxfs/rec/")) vx::fail("%s: %s is still open after the publisher left", hist.c_str(), f.c_str()); }

// ---- what is published.  Kinds: 0 K AVC key, 1 I AVC inter, 2 A AAC frame, 3 V AVC header, 4 H AAC header, 5 J Sorenson key, 6 j Sorenson inter, 7 M MP3
struct E { int k; uint32_t ts; string data; bool video() const { return k != 2 && k != 4 && k != 7; } bool hdr() const { return k == 3 || k == 4; } bool key() const { return k == 0 || k == 3 || k == 5; } bool avc() const { return k == 0 || k == 1 || k == 3; } bool aac() const { return k == 2 || k == 4; } };
static std::vector<E> E_; static const char KC[] = "KIAVHJjM";
static E mk(int k, uint32_t ts)
{
    E e{ k, ts, "" }; string id = std::to_string(eseq++);
    switch (k) { case 0: e.data = avc_key("k" + id); break; case 1: e.data = avc_inter("i" + id); break; case 2: e.data = aac_raw("a" + id); break; case 3: e.data = avc_seq() + id; break; case 4: e.data = aac_seq() + id; break; case 5: e.data = "\x12" "J" + id; break; case 6: e.data = "\x22" "j" + id; break; case 7: e.data = "\x2e" "M" + id; break; }
    return e;
}
static void put(Client &c, const E &e) { if (e.video()) c.send(video(e.ts, e.data), 6); else c.send(audio(e.ts, e.data), 4); vx::pump(); }

// ---- what must be in the files, from the documentation of the directives
enum { AUD = 1, VID = 2, KEY = 4 };
struct Rc { const char *id; int fl; uint32_t maxfr, maxsz; bool unique, append, interval, manual, notify; };
static const Rc RC[] = {
    { "all", AUD | VID, 0, 0, false, false, false, false, true }, { "aud", AUD, 0, 0, false, false, false, false, false }, { "vid", VID, 0, 0, false, false, false, false, false }, { "key", KEY, 0, 0, false, false, false, false, false },
    { "aky", AUD | KEY, 0, 0, false, false, false, false, false }, { "mfr", AUD | VID, 3, 0, false, false, false, false, true }, { "mfa", AUD, 2, 0, false, true, false, false, false }, { "msz", AUD | VID, 0, 70, false, false, false, false, false },
    { "int", AUD | VID, 0, 0, false, false, true, false, true }, { "ina", AUD, 0, 0, true, false, true, false, false }, { "uni", AUD | VID, 0, 0, true, false, false, false, false }, { "app", AUD | VID, 0, 0, false, true, false, false, false },
    { "off", 0, 0, 0, false, false, false, false, false }, { "man", AUD | VID, 0, 0, false, false, false, true, false }, { "mak", AUD, 0, 0, false, true, false, true, false } };
struct W { size_t ev; uint32_t ts; int vh, ah; };           // a frame that must be in the file: its event, its time, and the headers it needs
struct File { std::vector<W> w; uint64_t size = 0; bool a = false, v = false; uint32_t last = 0; };
struct Rec {
    const Rc *c; bool open = false, init = false, ahs = false, vhs = false, vks = false, dead = false; uint32_t nfr = 0, epoch = 0; uint64_t opened = 0; string path; int starts = 0, stops = 0;
    std::map<string, File> *fs; string name;
    void start() {
        if (open) return; open = true; starts++; opened = vx::now_ms(); init = ahs = vhs = vks = false; nfr = 0;
        path = "/vxfs/rec/" + name + (c->unique ? "-" + std::to_string(vx::now_ms() / 1000) : "") + string("-") + c->id + ".flv";
        if (!c->append) (*fs)[path] = File(); else (*fs)[path];
    }
    void stop() { if (!open) return; open = false; stops++; }
    void add(const E &e, bool hdr, size_t i, int V, int A, uint32_t at) {
        File &f = (*fs)[path]; uint32_t t = at - epoch; if ((int32_t) t < 0) t = 0;
        f.size += 15 + e.data.size(); (e.video() ? f.v : f.a) = true; f.last = t;
        if (!hdr) { nfr++; if (!e.hdr()) f.w.push_back({ i, t, V, A }); }
        if ((c->maxsz && f.size >= c->maxsz) || (c->maxfr && nfr >= c->maxfr)) stop();
    }
    // V, A: last headers (events) so far; vc, ac: is the current codec AVC, AAC
    void av(const E &e, size_t i, int V, int A, bool vc, bool ac) {
        if (!c->fl) return;
        bool brk = e.video() ? e.key() : !(c->fl & VID);
        if (brk && !c->manual) { if (c->interval) { if (vx::now_ms() > opened + 1000) { stop(); start(); } } else start(); }
        if (c->manual && !brk && !nfr) { if (e.k == 4) ahs = false; return; }
        if (!open) return;
        if (e.video() ? !(c->fl & VID) && !((c->fl & KEY) && e.key()) : !(c->fl & AUD)) return;
        if (!init) { init = true; File &f = (*fs)[path]; epoch = e.ts - f.last; if (!f.size) f.size = 13; }
        if (e.k == 3 && !vks) vhs = false;
        if (!ahs && A >= 0 && (c->fl & AUD)) { ahs = true; add(E_[A], true, i, V, A, e.ts); if (!open) return; }
        if (!vhs && V >= 0 && (c->fl & (VID | KEY))) { vhs = true; add(E_[V], true, i, V, A, e.ts); if (!open) return; }
        if (e.video()) { if (vc && !vhs) return; if (e.key() && !e.hdr()) vks = true; if (!vks) return; }
        else if (ac && !ahs) return;
        add(e, false, i, V, A, e.ts);
    }
};
static string tagstr(const std::vector<Msg> &t) { string s; for (auto &m : t) { size_t i = 0; for (; i < E_.size(); i++) if (E_[i].data == m.data) break; s += " "; s += i < E_.size() ? string(1, KC[E_[i].k]) + std::to_string(i) : "?"; s += "@" + std::to_string(m.ts); } return s; }
static void check_file(const string &path, const File &f, bool closed)
{
    string b = vx::fs_read(path); FlvFile p = flv_parse(b); string cx = hist + ": " + path;
    if (b.empty() && f.w.empty() && !f.size) return;
    if (!p.ok) vx::fail("%s: %s", cx.c_str(), p.err.c_str());
    if (p.rest) vx::fail("%s ends with %zu bytes that are no tag", cx.c_str(), p.rest);
    int V = -1, A = -1; size_t n = 0; string got = tagstr(p.tags); bool ha = false, hv = false;
    for (auto &m : p.tags) {
        size_t i = 0; for (; i < E_.size(); i++) if (E_[i].data == m.data && m.type == (E_[i].video() ? 9 : 8)) break;
        if (i == E_.size()) vx::fail("%s holds a tag that was never published:%s", cx.c_str(), got.c_str());
        (m.type == 9 ? hv : ha) = true;
        if (E_[i].hdr()) { (E_[i].k == 3 ? V : A) = (int) i; continue; }
        if (n == f.w.size() || f.w[n].ev != i) vx::fail("%s holds%s; frame %zu of it should %s", cx.c_str(), got.c_str(), n + 1, n == f.w.size() ? "not be there" : ("be " + string(1, KC[E_[f.w[n].ev].k]) + std::to_string(f.w[n].ev)).c_str());
        if (m.ts != f.w[n].ts) vx::fail("%s: %c%zu has time %u, not %u", cx.c_str(), KC[E_[i].k], i, m.ts, f.w[n].ts);
        if (E_[i].avc() && V != f.w[n].vh) vx::fail("%s: %c%zu is not preceded by its codec header:%s", cx.c_str(), KC[E_[i].k], i, got.c_str());
        if (E_[i].aac() && A != f.w[n].ah) vx::fail("%s: %c%zu is not preceded by its codec header:%s", cx.c_str(), KC[E_[i].k], i, got.c_str());
        n++;
    }
    if (n < f.w.size()) vx::fail("%s holds%s; %c%zu is missing", cx.c_str(), got.c_str(), KC[E_[f.w[n].ev].k], f.w[n].ev);
    if (closed && p.flags >= 0 && !p.tags.empty() && p.flags != ((f.v || hv ? 1 : 0) | (f.a || ha ? 4 : 0))) vx::fail("%s: the file header says %d, the file holds%s", cx.c_str(), p.flags, got.c_str());
    vx::observe_u64(n * 64 + p.tags.size());
}
struct World {
    std::map<string, File> fs; std::vector<Rec> r; int V = -1, A = -1; bool vc = false, ac = false; string name;
    void begin(const string &nm) { name = nm; V = A = -1; vc = ac = false; r.clear(); for (auto &c : RC) { Rec x; x.c = &c; x.fs = &fs; x.name = nm; r.push_back(x); if (c.fl && !c.manual) r.back().start(); } }
    void av(const E &e, size_t i) { if (e.k == 3) V = (int) i; if (e.k == 4) A = (int) i; if (e.video()) vc = e.avc(); else ac = e.aac(); for (auto &x : r) x.av(e, i, V, A, vc, ac); }
    void end() { for (auto &x : r) x.stop(); }
    void check(bool closed) { for (auto &f : fs) check_file(f.first, f.second, closed); for (auto &p : vx::fs_list("/vxfs/rec/")) if (!fs.count(p)) vx::fail("%s: unexpected file %s", hist.c_str(), p.c_str()); }
    void notified(Client &c) { int a = 0, o = 0; for (auto &x : r) if (x.c->notify) { a += x.starts; o += x.stops; } int s = c.count_code("NetStream.Record.Start"), t = c.count_code("NetStream.Record.Stop"), f = c.count_code("NetStream.Record.Failed"); if (s != a || t != o || f) vx::fail("%s: the publisher was told of %d starts, %d stops and %d failures of recordings, there were %d and %d", hist.c_str(), s, t, f, a, o); }
};
static void up(Client *&c, const string &app, const string &nm) { c = new Client; c->name = "publisher"; if (!c->publisher(nm, app)) vx::fail("%s: cannot publish", hist.c_str()); }
static string control(const string &what, const string &rec, const string &app = "rec") { Http h; h.name = "control"; h.get("/control/record/" + what + "?srv=a&app=" + app + "&name=s&rec=" + rec, "1.0"); vx::pump(); h.check(); string r = std::to_string(h.status); if (!h.c->closed) h.c->fin(); vx::pump(); return r; }

// ---- every sequence of messages, pauses and restarts, with 15 recorders at once
static const int ALPHA[] = { 0, 1, 2, 3, 4, 5, 7, 6, 100, 101 };   // 100: 1.1 s pass, 101: leaves and publishes again
static int content_roots() { return 3 * 10 * 2; }
static void content_run(int root)
{
    int pat = root % 3, first = root / 3 % 10, pre = root / 30;
    vx::batch([&] {
        wipe(); E_.clear(); World w; uint32_t ts = pat == 1 ? 0xfffff0 : 1000; vx::advance(1000); w.begin("s"); up(pub, "rec", "s");
        auto step = [&](int k) {
            if (k == 100) { vx::advance(1100); hist += "+1.1s "; return; }
            if (k == 101) { w.notified(*pub); drop(pub); w.end(); w.check(true); nofiles(); vx::advance(1000); w.begin("s"); hist += "republish "; up(pub, "rec", "s"); return; }
            E_.push_back(mk(k, ts)); put(*pub, E_.back()); hist += string(1, KC[k]) + std::to_string(E_.size() - 1) + "@" + std::to_string(ts) + " "; w.av(E_.back(), E_.size() - 1); sane();
            ts += pat == 0 ? 40 : pat == 1 ? 20 : E_.size() % 3 == 2 ? -300 : 40;
        };
        if (pre) for (int k : { 3, 4, 0 }) step(k);
        step(ALPHA[first]);
        int n = vx::tier_pick(3, 5); for (int i = 0; i < n; i++) step(ALPHA[vx::choose(10)]);
        vx::note("%s", hist.c_str());
        w.check(false); w.notified(*pub); drop(pub); w.end(); w.check(true); nofiles(); sane();
    });
}
// ---- recording by request
static int manual_roots() { return 7; }
static void manual_run(int root)
{
    vx::batch([&] {
        wipe(); E_.clear(); World w; uint32_t ts = 1000; vx::advance(1000); w.begin("s"); up(pub, "rec", "s");
        auto rec = [&](const char *id) -> Rec & { for (auto &x : w.r) if (!strcmp(x.c->id, id)) return x; abort(); };
        auto step = [&](int k) {
            if (k < 5) { E_.push_back(mk(k, ts)); ts += 40; put(*pub, E_.back()); hist += string(1, KC[k]) + " "; w.av(E_.back(), E_.size() - 1); }
            else if (k == 5 || k == 6) { for (auto id : { "man", "mak" }) { string s = control(k == 5 ? "start" : "stop", id); if (s != "200") vx::fail("%s: the request to %s %s got %s", hist.c_str(), k == 5 ? "start" : "stop", id, s.c_str()); if (k == 5) rec(id).start(); else rec(id).stop(); } hist += k == 5 ? "start " : "stop "; }
            sane();
        };
        step(root); int n = vx::tier_pick(4, 6); for (int i = 0; i < n; i++) { step(vx::choose(7)); }
        vx::note("%s", hist.c_str());
        w.check(false); w.notified(*pub); drop(pub); w.end(); w.check(true); nofiles(); sane();
    });
}
// ---- every disk failure
static const char *FAPP[] = { "plain", "apnd", "intv", "keys" };
static int fault_roots() { return 4 * 4 * 2; }
static void fault_run(int root)
{
    int ai = root % 4, mode = root / 4 % 4, old = root / 16;    // mode: fails once, fails from then on, short write once, writes stay short
    if (old && ai != 1) return;
    for (int at = 0;; at++) {
        int shorts = mode >= 2 ? 3 : 1, hit = 0;
        for (int sh = 0; sh < shorts; sh++) {
            wipe(); E_.clear(); vx::advance(2000); string pre;
            if (old) { up(pub, "apnd", "s"); for (int k : { 3, 4, 0, 2 }) { E_.push_back(mk(k, 500 + 10 * eseq)); put(*pub, E_.back()); } drop(pub); pre = vx::fs_read("/vxfs/rec/s.flv"); vx::advance(2000); }
            size_t e0 = E_.size(); int n = 0; hit = 0;
            char b[160]; snprintf(b, sizeof b, "%s%s, file operation %d fails (%s %d)", FAPP[ai], old ? " (appending)" : "", at, mode == 0 ? "once" : mode == 1 ? "and all later ones" : mode == 2 ? "short write" : "short writes from then on", sh); hist = b;
            vx::fs_fault = [&](const vx::FsOp &o) -> int {
                if (o.path.compare(0, 10, "/vxfs/rec/")) return 0;
                int i = n++; bool f = mode == 0 || mode == 2 ? i == at : i >= at; if (!f) return 0;
                hit++; vx::note("%s: kind %d, offset %ld, %zu bytes", hist.c_str(), o.kind, (long) o.off, o.data.size());
                if (mode >= 2 && o.kind == vx::FS_WRITE && o.data.size() > 1) return -(sh == 0 ? 1 : sh == 1 ? (int) o.data.size() / 2 + (o.data.size() == 2 ? 0 : 0) : (int) o.data.size() - 1);
                return mode >= 2 ? (o.kind == vx::FS_WRITE ? (mode == 3 ? 28 : 0) : 0) : 28;
            };
            Client *q = nullptr; up(pub, FAPP[ai], "s"); L = new Client; L->name = "player"; if (!L->player("s", FAPP[ai])) vx::fail("%s: cannot play", hist.c_str()); (void) q;
            uint32_t ts = 7000; size_t frames = 0;
            for (int k : { 3, 4, 0, 2, 1, 2, 100, 0, 1, 2, 0, 2 }) { if (k == 100) { vx::advance(1100); continue; } E_.push_back(mk(k, ts)); ts += 40; put(*pub, E_.back()); if (!E_.back().hdr()) frames++; sane(); }
            if (pub->c->closed) vx::fail("%s: the publisher was disconnected", hist.c_str());
            size_t got = 0, hd = 0; for (auto &m : L->av()) { bool h = false; for (auto &e : E_) if (e.hdr() && e.data == m.data) h = true; if (h) hd++; else got++; }
            if (got != frames) vx::fail("%s: the player received %zu of %zu frames", hist.c_str(), got, frames);
            if (mode < 2 && hit && !pub->saw_code("NetStream.Record.Failed") && ai != 0 && mode == 1) vx::fail("%s: the publisher was not told", hist.c_str());
            vx::fs_fault = nullptr;
            for (auto &p : vx::fs_list("/vxfs/rec/")) {
                FlvFile f = flv_parse(vx::fs_read(p)); string b2 = vx::fs_read(p);
                if (!f.ok) vx::fail("%s: %s: %s; %s", hist.c_str(), p.c_str(), f.err.c_str(), tagstr(f.tags).c_str());
                if (f.rest && mode != 1) vx::fail("%s: %s ends with %zu bytes that are no tag", hist.c_str(), p.c_str(), f.rest);
                long last = -1; for (auto &m : f.tags) { size_t i = 0; for (; i < E_.size(); i++) if (E_[i].data == m.data) break; if (i == E_.size()) vx::fail("%s: %s holds a tag that was never published", hist.c_str(), p.c_str()); if (E_[i].hdr()) continue; if ((long) i <= last) vx::fail("%s: %s: tags out of order%s", hist.c_str(), p.c_str(), tagstr(f.tags).c_str()); last = (long) i; }
                if (old && pre.size() > 13) { FlvFile g = flv_parse(pre); for (size_t i = 0; i < g.tags.size(); i++) if (i >= f.tags.size() || f.tags[i].data != g.tags[i].data) vx::fail("%s: %s lost what was recorded before%s", hist.c_str(), p.c_str(), tagstr(f.tags).c_str()); }
            }
            vx::observe_u64(at * 100 + hit); (void) e0;
            drop(L); drop(pub); nofiles(); sane(); vx::count(1, 12, 1);
        }
        if (!hit && at > 60) break; if (!hit && mode == 0) break; if (at > 400) break;
    }
}
// ---- an interrupted recording is continued
static int crash_roots() { return 6 * 4; }
static void crash_run(int root)
{
    int tail = root / 4 % 6, part = root % 4;   // tail: cut, zeros up to the full length, zeros to 4 KB, ff, repeats the last tag size, file of something else
    wipe(); E_.clear(); up(pub, "apnd", "s"); uint32_t ts = 100; for (int k : { 3, 4, 0, 2, 1, 2 }) { E_.push_back(mk(k, ts)); ts += part == 3 ? 0x900000 : 40; put(*pub, E_.back()); } drop(pub);
    string full = vx::fs_read("/vxfs/rec/s.flv"); FlvFile ff = flv_parse(full); if (ff.tags.size() < 6 || ff.rest) vx::fail("reference recording is wrong"); std::vector<E> base = E_;
    for (size_t cut = 0; cut <= full.size(); cut++) {
        if (part < 3 && cut % 3 != (size_t) part) continue;
        int es = eseq; wipe(); eseq = es; E_ = base; string b = full.substr(0, cut); if (cut < full.size() && cut >= 5) b[4] = 5;
        if (tail == 1) b.resize(full.size(), '\0'); if (tail == 2) b.resize(4096, '\0'); if (tail == 3) b.resize(full.size() + 7, '\xff'); if (tail == 4 && cut > 20) b += full.substr(full.size() - 4); if (tail == 5) { b = string(cut, 'x'); }
        FlvFile keep = flv_parse(tail == 4 ? b : b.substr(0, std::min(cut, b.size()))); if (tail == 5 || cut < 13) keep.tags.clear();
        char hb[100]; snprintf(hb, sizeof hb, "append to a recording cut at %zu of %zu (tail %d)", cut, full.size(), tail); hist = hb; vx::note("%s", hb);
        vx::fs_write("/vxfs/rec/s.flv", b); vx::advance(1000); up(pub, "apnd", "s"); std::vector<E> add; uint32_t t2 = 9000; for (int k : { 4, 3, 0, 2 }) { E_.push_back(mk(k, t2)); t2 += 25; put(*pub, E_.back()); } drop(pub); nofiles(); sane();
        FlvFile f = flv_parse(vx::fs_read("/vxfs/rec/s.flv")); if (!f.ok || f.rest) for (auto &o : vx::fs_log()) if (o.path.find("rec/s") != string::npos) vx::note("op %d off %ld n %zu", o.kind, (long) o.off, o.data.size());
        if (!f.ok || f.rest) vx::fail("%s: afterwards %s (%zu stray bytes):%s", hb, f.err.c_str(), f.rest, tagstr(f.tags).c_str());
        for (size_t i = 0; i < keep.tags.size(); i++) if (i >= f.tags.size() || f.tags[i].data != keep.tags[i].data || f.tags[i].ts != keep.tags[i].ts || f.tags[i].type != keep.tags[i].type) vx::fail("%s: %zu whole tags were there, tag %zu is lost: now%s", hb, keep.tags.size(), i + 1, tagstr(f.tags).c_str());
        uint32_t last = keep.tags.empty() ? 0 : keep.tags.back().ts; std::vector<size_t> fr; bool vh = false, ah = false;
        for (size_t i = keep.tags.size(); i < f.tags.size(); i++) { size_t j = 0; for (; j < E_.size(); j++) if (E_[j].data == f.tags[i].data) break; if (j < base.size() || j == E_.size()) vx::fail("%s: a tag that is not new follows:%s", hb, tagstr(f.tags).c_str()); if (E_[j].k == 3) vh = true; if (E_[j].k == 4) ah = true; if (!E_[j].hdr()) { fr.push_back(j); if (E_[j].k == 0 ? !vh : !ah) vx::fail("%s: no codec header before the new frames", hb); if (f.tags[i].ts != last + (E_[j].ts - 9000)) vx::fail("%s: the first new frames have time %u after %u", hb, f.tags[i].ts, last); } }
        if (fr.size() != 2) vx::fail("%s: %zu of 2 new frames recorded:%s", hb, fr.size(), tagstr(f.tags).c_str());
        if ((f.flags & 5) != 5) vx::fail("%s: header flags %d", hb, f.flags);
        vx::observe_u64(keep.tags.size()); vx::count(1, 4, 1);
    }
}
// ---- someone who may not publish
static int refused_roots() { return 5 * 6; }
static void refused_run(int root)
{
    int how = root / 6, first = root % 6;       // 0 second publisher, 1 denied address, 2 refused by the callback, 3 callback still pending, 4 second publisher where the first was admitted by the callback
    static const char *APPS[] = { "plain", "deny", "cb", "cb", "cb" };
    vx::batch([&] {
        wipe(); E_.clear(); nserver(); vx::advance(1500); std::map<string, File> fs; Rc c = RC[0]; c.id = ""; Rec r; r.c = &c; r.fs = &fs; r.name = "s"; Client *B = nullptr; bool stale = false; int V = -1, A = -1; uint32_t ts = 100;
        auto pubA = [&] { pub = new Client; pub->name = "accepted publisher"; if (!pub->up(APPS[how], "1935", "10.0.0.1")) vx::fail("%s: up", hist.c_str()); pub->publish("s"); vx::pump(); if (how >= 2) { nanswer(*nexpect({ "publish/start" }, hist.c_str()), A200); } if (!pub->saw_code("NetStream.Publish.Start")) vx::fail("%s: not accepted", hist.c_str()); r.start(); r.path = "/vxfs/rec/s.flv"; fs.clear(); fs[r.path] = File(); V = A = -1; stale = false; };
        std::unique_ptr<NReq> pend;
        auto step = [&](int k) {
            switch (k) {
            case 0: case 1: case 2: {
                static const int MK[] = { 0, 1, 2 };
                if (!pub) { pubA(); for (int h : { 3, 4 }) { E_.push_back(mk(h, ts)); put(*pub, E_.back()); (h == 3 ? V : A) = (int) E_.size() - 1; r.av(E_.back(), E_.size() - 1, V, A, V >= 0, A >= 0); } }
                E_.push_back(mk(MK[k], ts)); ts += 40; put(*pub, E_.back()); r.av(E_.back(), E_.size() - 1, V, A, V >= 0, A >= 0); hist += KC[MK[k]]; hist += ' '; break; }
            case 3: // B tries
                if (B || ((how == 0 || how == 4) && !pub)) return;
                B = new Client; B->name = "refused publisher"; if (!B->up(APPS[how], "1935", "10.0.0.6")) vx::fail("%s: B", hist.c_str()); B->publish("s"); vx::pump(); hist += "other-tries ";
                if (how >= 2) { pend.reset(new NReq(*nexpect({ "publish/start" }, hist.c_str()))); if (how == 2) { nanswer(*pend, A403); pend.reset(); } else if (how == 4) { nanswer(*pend, A200); pend.reset(); } }
                if (B->saw_code("NetStream.Publish.Start")) vx::fail("%s: accepted", hist.c_str()); break;
            case 4: // B sends media all the same
                if (!B || B->c->closed) return;
                for (int h : { 3, 0 }) { E e = mk(h, ts + 7); if (!B->c->closed) put(*B, e); } hist += "other-sends "; break;
            case 5: // B goes, by leaving or by deleting its stream
                if (!B) return;
                if (!B->c->closed && (eseq & 1)) { B->cmd("deleteStream", { Null(), N(1) }); vx::pump(); if (!B->c->closed) { E e = mk(0, ts); put(*B, e); } }
                drop(B); pend.reset(); hist += "other-goes "; break;
            }
            sane(); for (auto &f : fs) check_file(f.first, f.second, false);
            for (auto &p : vx::fs_list("/vxfs/rec/")) if (!fs.count(p)) vx::fail("%s: %s was created for a refused publisher", hist.c_str(), p.c_str());
        };
        step(first); int n = vx::tier_pick(4, 6); for (int i = 0; i < n; i++) step(vx::choose(6)); (void) stale;
        vx::note("%s", hist.c_str());
        drop(B); drop(pub); for (auto &f : fs) check_file(f.first, f.second, true); nofiles(); sane(); nreset();
    });
}
// ---- where a recording goes
static int names_roots() { return 8; }
static void names_run(int root)
{
    static const char AL[] = { 'a', '.', '/', '%', ' ', '\\', '\x81', '?' };
    vx::batch([&] {
        wipe(); E_.clear(); string nm(1, AL[root]); int n = vx::choose(4); for (int i = 0; i < n; i++) nm += AL[vx::choose(8)]; bool uq = n < 3 && vx::choose(2);
        int rep = n == 3 && nm == string(4, AL[root]) ? 60 : 1; string full; for (int i = 0; i < rep; i++) full += nm; nm = full;
        hist = "stream '" + nm + "'"; vx::note("%s", hist.c_str());
        auto before = vx::fs_list("/vxfs/"); pub = new Client; if (!pub->up(uq ? "uniq" : "plain", "1935", "10.0.0.1")) vx::fail("up"); pub->publish(nm); vx::pump();
        if (pub->saw_code("NetStream.Publish.Start")) {
            for (int k : { 3, 0 }) { E_.push_back(mk(k, 10)); put(*pub, E_.back()); }
            auto after = vx::fs_list("/vxfs/"); std::vector<string> neu; for (auto &p : after) if (std::find(before.begin(), before.end(), p) == before.end()) neu.push_back(p);
            if (neu.size() != 1) vx::fail("%s: %zu new files", hist.c_str(), neu.size());
            string p = neu[0]; if (p.compare(0, 10, "/vxfs/rec/") || p.find('/', 10) != string::npos || p.size() < 14 || p.compare(p.size() - 4, 4, ".flv")) vx::fail("%s is recorded as %s", hist.c_str(), p.c_str());
            string want = nm.substr(0, nm.find('?')); size_t dd = want.find("/../"); if (dd != string::npos) want = want.substr(0, dd);
            string dec; for (size_t i = 10; i < p.size(); i++) if (p[i] == '%' && i + 2 < p.size()) { dec += (char) strtol(p.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else dec += p[i];
            if (!uq && dec != want + ".flv") vx::fail("%s is recorded as %s", hist.c_str(), p.c_str());
            if (uq && dec.compare(0, want.size() + 1, want + "-")) vx::fail("%s is recorded as %s", hist.c_str(), p.c_str());
            FlvFile f = flv_parse(vx::fs_read(p)); if (!f.ok || f.tags.size() != 2) vx::fail("%s: not recorded", hist.c_str());
            vx::observe_u64(p.size());
        }
        drop(pub); sane(); nofiles();
    });
}
VX_SCENARIOS(
    { "names", names_roots, names_run, "every stream name of up to 4 characters over letter, dot, slash, percent, space, backslash, byte, question mark, and 240-character repeats, x plain or unique names" },
    { "crash", crash_roots, crash_run, "append to a recording cut at every byte x 6 kinds of tail (cut, zero-filled to its length or a block, garbage, repeated tag size, a file of something else) x short or extended timestamps" },
    { "refused", refused_roots, refused_run, "5 ways of refusing (name taken, address denied, refused by on_publish, still pending, taken after a callback) x every sequence of 5 (7) steps of frames of the accepted publisher and tries, media and leaving of the other" },
    { "fault", fault_roots, fault_run, "4 recorders (and appending) x failure at every file operation x once, for good, short write (3 lengths) once and for good, with a live player" },
    { "manual", manual_roots, manual_run, "every sequence of 5 (7) of key, inter, audio, headers, start and stop requests for two manual recorders" },
    { "content", content_roots, content_run, "15 recorders (all, audio, video, keyframes, both, max_frames, max_size, interval, unique, append, off, manual) x every sequence of 4 (6) of AVC key/inter, AAC, AVC/AAC headers, Sorenson key/inter, MP3, 1.1 s passing, republishing, from the start and after headers and a key frame x 3 timestamp patterns" })
