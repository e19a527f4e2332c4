// P29: a transport stream uploaded over HTTP becomes the HLS and DASH presentation of exactly its frames.
#include "http.h"
#include "ts.h"
#include "mp4.h"
#include "avc.h"
#include <algorithm>
#include <malloc.h>
using namespace rt;
extern "C" int hls_cleanup(const char *);
static string hist;
static const int64_t MIN = 90000, MAX = 270000; static const uint64_t M33 = (1ull << 33) - 1;
static const int VP = 0x100, AP = 0x101, PP = 0x1000;
// ---- what is uploaded
struct Fr { bool vid; uint64_t pts, dts; bool rai; bool unb; string es; std::vector<string> nals, raw; };
struct Mux {
    string out; int cc[3] = { 0, 0, 0 }; bool haspcr = true, video = true, audio = true; int split = 0;
    void pkt(int pid, const string &pay, bool pusi, bool rai = false, int64_t pcr = -1, bool nopay = false)
    {
        int &c = cc[pid == VP ? 0 : pid == AP ? 1 : 2]; if (pid == PP || pid == 0) c = c & 15; string h = "\x47"; h += (char) ((pusi ? 0x40 : 0) | pid >> 8); h += (char) pid; size_t room = 184; string af;
        if (rai || pcr >= 0) { af += (char) ((rai ? 0x40 : 0) | (pcr >= 0 ? 0x10 : 0)); if (pcr >= 0) { af += be((uint64_t) (pcr & (int64_t) M33) >> 1, 4); af += (char) ((pcr & 1) << 7 | 0x7e); af += '\0'; } }
        bool has = !af.empty() || pay.size() < room || nopay; if (has) room -= 1 + af.size();
        if (nopay) { if (af.empty()) af = string(1, '\0'); af.resize(183, '\xff'); h += (char) (0x20 | c); out += h + (char) 183 + af; return; }
        if (pay.size() > room) vx::fail("mux: %zu in %zu", pay.size(), room);
        if (has) { size_t stuff = room - pay.size(); if (af.empty() && stuff) { af += '\0'; stuff--; } af += string(stuff, '\xff'); }
        h += (char) ((has ? 0x30 : 0x10) | c); c = (c + 1) & 15; out += h; if (has) { out += (char) af.size(); out += af; } out += pay;
    }
    void psi()
    {
        string s = be(0x00b0, 2) + (char) 13 + be(1, 2) + "\xc1" + string(2, '\0') + be(1, 2) + be(0xe000 | PP, 2); s = s.substr(0, 1) + be(0xb000 | 13, 2) + s.substr(3); s += be(crc_mpeg(s), 4); pkt(0, string(1, '\0') + s + string(184 - 1 - s.size(), '\xff'), true);
        string e; if (video) e += "\x1b" + be(0xe000 | VP, 2) + be(0xf000, 2); if (audio) e += "\x0f" + be(0xe000 | AP, 2) + be(0xf000, 2); string m = be(1, 2) + "\xc1" + string(2, '\0') + be(0xe000 | (video ? VP : AP), 2) + be(0xf000, 2) + e; m = "\x02" + be(0xb000 | (m.size() + 4), 2) + m; m += be(crc_mpeg(m), 4); pkt(PP, string(1, '\0') + m + string(184 - 1 - m.size(), '\xff'), true);
    }
    static string stamp(int pre, uint64_t t) { t &= M33; string s; s += (char) (pre << 4 | (t >> 30 & 7) << 1 | 1); s += be((t >> 15 & 0x7fff) << 1 | 1, 2); s += be((t & 0x7fff) << 1 | 1, 2); return s; }
    void frame(const Fr &f, bool pcr = true)
    {
        string hd = stamp(f.pts != f.dts ? 3 : 2, f.pts); if (f.pts != f.dts) hd += stamp(1, f.dts); string body = string(1, '\x80') + (char) (f.pts != f.dts ? 0xc0 : 0x80) + (char) hd.size() + hd + f.es;
        string p = string("\0\0\1", 3) + (char) (f.vid ? 0xe0 : 0xc0) + be(f.unb ? 0 : body.size(), 2) + body; size_t at = 0; bool first = true; int pid = f.vid ? VP : AP; int64_t clk = pcr && (f.vid || !video) ? (int64_t) ((f.dts - 1000) & M33) : -1;
        while (at < p.size()) { size_t room = 184; if (first && (f.rai || clk >= 0)) room -= 2 + (clk >= 0 ? 6 : 0); if (split) room = std::min(room, (size_t) split); size_t n = std::min(room, p.size() - at); pkt(pid, p.substr(at, n), first, first && f.rai, first ? clk : -1); at += n; first = false; }
    }
};
static string nal(int type, int n, const string &fill) { string s(1, (char) type); for (int i = 0; (int) s.size() < n; i++) s += fill.empty() ? (char) ('a' + i % 26) : fill[(size_t) i % fill.size()]; return s; }
static const string &SPS() { static string s = [] { Avc a; a.l = a.r = a.t = a.b = 0; return avcsps(a); }(); return s; }
static const string PPS("\x68\xce\x3c\x80", 4);
static int fseq;
static Fr vframe(bool key, uint64_t dts, int cts, int size, bool unb, bool sc3 = false)
{
    Fr f{ true, dts + (uint64_t) cts, dts, key, unb, "", {}, {} }; string id = std::to_string(fseq++); string sl = nal(key ? 0x65 : 0x41, std::max(size, 3 + (int) id.size()), ""); sl.replace(1, id.size(), id);
    string S4("\0\0\0\1", 4), S3("\0\0\1", 3); auto add = [&](const string &n, bool keep, const string &s) { f.es += s + n; if (keep) f.nals.push_back(n); };
    add(string("\x09\xf0"), true, S4); if (key) { add(SPS(), false, S4); add(PPS, false, S4); } if (size % 2) add(string("\x06\x05\0\0\x03\x01\x80", 7), true, sc3 ? S3 : S4); add(sl, true, sc3 ? S3 : S4); if (size > 100) add(nal(key ? 0x65 : 0x41, 40, "second"), true, S3); return f;
}
static const unsigned HZ[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
static int arate = 4, aprof = 2, achan = 2;
static Fr aframe(uint64_t dts, int n, int size = 20, int crc = 0)
{
    Fr f{ false, dts, dts, false, false, "", {}, {} }; for (int i = 0; i < n; i++) { string id = std::to_string(fseq++); string d(1, (char) ('A' + i)); d += id; while ((int) d.size() < size) d += (char) (d.size() * 7); size_t l = d.size() + (crc ? 9 : 7); string h = "\xff"; h += crc ? '\xf0' : '\xf1'; h += (char) ((aprof - 1) << 6 | arate << 2 | achan >> 2); h += (char) ((achan & 3) << 6 | l >> 11); h += (char) (l >> 3); h += (char) ((l & 7) << 5 | 0x1f); h += '\xfc'; if (crc) h += "cc"; f.es += h + d; f.raw.push_back(d); } return f;
}
// ---- what must come out: frames in the order in which they are complete
struct Out { std::vector<Fr> done; };
struct Upload { Mux m; std::vector<Fr> done; bool pend = false; Fr last; std::vector<size_t> ends;
    void put(const Fr &f, bool pcr = true) { if (f.vid && pend) { done.push_back(last); pend = false; } m.frame(f, pcr); if (f.unb) { pend = true; last = f; } else done.push_back(f); ends.push_back(m.out.size()); } };
struct Seg { uint64_t dts; int64_t dur; std::vector<Fr> f; };
static string lines(const string &s, std::vector<string> &l) { size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) return "no newline at the end"; l.push_back(s.substr(p, e - p)); p = e + 1; } return ""; }
static void clean(const string &d) { for (auto &f : vx::fs_list(d + "/")) vx::fs_unlink(f); }
static uint64_t sizes(const Fr &f) { return f.es.size(); }
static bool fuzz33 = false;                // stamps are compared modulo 2^33
static void judge_hls(const string &dir, const Upload &u, bool hasvideo, bool done, int nsegs = 3, long maxsize = 0)
{
    const char *h = hist.c_str(); std::vector<Seg> sg; uint64_t lv = 0, la = 0; bool open = false; size_t bytes = 0; (void) maxsize;
    for (auto &f : u.done) {
        (f.vid ? lv : la) = f.dts; if (open) { int64_t d = (int64_t) (f.dts - sg.back().dts); bool cut = d >= MAX || (d >= MIN && (f.vid ? f.rai : !hasvideo)); if (cut) { sg.back().dur = d; open = false; } }
        if (!open) { sg.push_back({ f.dts, 0, {} }); open = true; bytes = 0; } sg.back().f.push_back(f); bytes += f.es.size();
    }
    if (done && open) sg.back().dur = std::max<int64_t>(0, std::max((int64_t) (lv - sg.back().dts) * (lv != 0), (int64_t) (la - sg.back().dts) * (la != 0)));
    if (sg.empty()) { if (vx::fs_exists(dir + "/0.ts")) vx::fail("%s: a segment of nothing", h); return; }
    std::map<int, int> cc; string psi;
    for (size_t i = 0; i < sg.size() + 2; i++) {
        string fn = dir + "/" + std::to_string(i) + ".ts"; bool ex = vx::fs_exists(fn); if (ex != (i < sg.size())) vx::fail("%s: %s %s, %zu segments expected", h, fn.c_str(), ex ? "exists" : "is missing", sg.size()); if (!ex) continue; string b = vx::fs_read(fn);
        TsFile t = ts_parse(b, &cc, true); if (!t.ok) vx::fail("%s: %s: %s", h, fn.c_str(), t.err.c_str()); if (t.vtype != (hasvideo ? 0x1b : 0)) vx::fail("%s: %s: stream types %d, %d", h, fn.c_str(), t.vtype, t.atype);
        if (i == 0) psi = b.substr(0, 376); else if (b.substr(0, 376) != psi) vx::fail("%s: %s starts with other tables", h, fn.c_str());
        if (t.pes.size() != sg[i].f.size()) vx::fail("%s: %s has %zu frames, not %zu", h, fn.c_str(), t.pes.size(), sg[i].f.size());
        for (size_t k = 0; k < t.pes.size(); k++) { auto &p = t.pes[k]; auto &f = sg[i].f[k]; int pid = f.vid ? VP : AP; if (p.pid != pid || p.sid != (f.vid ? 0xe0 : 0xc0) || p.data != f.es) vx::fail("%s: frame %zu of %s: PID %d, %zu bytes, not the frame of PID %d with %zu bytes", h, k, fn.c_str(), p.pid, p.data.size(), pid, f.es.size()); if (p.pts != (f.pts & M33) || p.dts != (f.dts & M33)) vx::fail("%s: frame %zu of %s has time stamps %llu, %llu, not %llu, %llu", h, k, fn.c_str(), (unsigned long long) p.pts, (unsigned long long) p.dts, (unsigned long long) f.pts, (unsigned long long) f.dts); if (p.rai != f.rai) vx::fail("%s: frame %zu of %s %s a random access point", h, k, fn.c_str(), p.rai ? "is" : "is no longer"); bool clk = f.vid || !hasvideo; if (u.m.haspcr && (p.haspcr != clk || (clk && p.pcr != ((f.dts - 1000) & M33)))) vx::fail("%s: frame %zu of %s has another clock reference", h, k, fn.c_str()); }
    }
    size_t closed = sg.size() - (done ? 0 : 1); string pl = dir + "/index.m3u8"; if (vx::fs_exists(pl) != (closed > 0)) vx::fail("%s: %s %s", h, pl.c_str(), closed ? "is missing" : "exists"); if (!closed) return;
    std::vector<string> l; string e = lines(vx::fs_read(pl), l); string want = "#EXTM3U|#EXT-X-VERSION:3|#EXT-X-MEDIA-SEQUENCE:" + std::to_string(closed > (size_t) nsegs ? closed - (size_t) nsegs : 0) + "|", got; long td = -1; int64_t mx = 0; bool endl = false; std::vector<double> durs; size_t di = 0; bool wrong = false;
    for (size_t i = closed > (size_t) nsegs ? closed - (size_t) nsegs : 0; i < closed; i++) { if (!sg[i].dur) continue; char x[64]; snprintf(x, sizeof x, "#EXTINF:%.3f,|", (double) sg[i].dur / 90000.); durs.push_back((double) sg[i].dur / 90000.); want += string("#EXTINF|") + std::to_string(i) + ".ts|"; mx = std::max(mx, sg[i].dur); }
    for (auto &x : l) { if (x.compare(0, 22, "#EXT-X-TARGETDURATION:") == 0) td = atol(x.c_str() + 22); else if (x == "#EXT-X-ENDLIST") endl = true; else if (x.compare(0, 8, "#EXTINF:") == 0) { got += "#EXTINF|"; double d = atof(x.c_str() + 8); if (di >= durs.size() || d < durs[di] - 0.00051 || d > durs[di] + 0.00051) { wrong = true; got += "(" + x + ")"; } di++; } else if (!x.empty()) got += x + "|"; }
    if (!e.empty() || got != want || wrong || endl != done) vx::fail("%s: the playlist says %s%s, expected %s%s", h, got.c_str(), endl ? "END" : "", want.c_str(), done ? "END" : ""); if (td < (mx + 45000) / 90000 || td > 3 + mx / 90000) vx::fail("%s: target duration %ld, the longest segment has %.3f s", h, td, (double) mx / 90000.);
}
static string attr(const string &s, size_t at, const string &n) { size_t p = s.find(n + "=\"", at); if (p == string::npos) return "?"; p += n.size() + 2; return s.substr(p, s.find('"', p) - p); }
static int spsw = 640, spsh = 480; static string spsx;
static void judge_dash(const string &dir, const Upload &u, bool hasvideo, bool hasaudio, bool done, int nsegs = 3)
{
    const char *h = hist.c_str(); mp4_scale = 90000; struct Rep { bool vid; std::vector<Seg> s; bool band = false; string list; size_t closed = 0; }; std::vector<Rep> reps; if (hasvideo) reps.push_back({ true, {}, false, "", 0 }); if (hasaudio) reps.push_back({ false, {}, false, "", 0 }); bool wrote = false, all = true; size_t files = 0;
    struct Upd { size_t at; }; 
    for (auto &r : reps) {
        bool open = false; uint64_t first = 0, last = 0; bool any = false; for (auto &f : u.done) if (f.vid == r.vid) { if (!any) first = f.dts; any = true; last = f.dts; if ((int64_t) (f.dts - first) >= MIN) r.band = true; if (open) { int64_t d = (int64_t) (f.dts - r.s.back().dts); if (d >= MAX || (d >= MIN && (!f.vid || f.rai))) { r.s.back().dur = d; open = false; } } if (!open) { r.s.push_back({ f.dts, 0, {} }); open = true; } r.s.back().f.push_back(f); }
        if (done && open) r.s.back().dur = (int64_t) (last - r.s.back().dts); r.closed = r.s.size() - (!done && open ? 1 : 0); wrote |= r.closed > 0; all &= r.band; files += r.closed;
        string pid = std::to_string(r.vid ? VP : AP);
        for (size_t i = 0; i < r.closed; i++) {
            auto &s = r.s[i]; string fn = dir + "/" + pid + "." + std::to_string(s.dts) + ".mp4"; if (!vx::fs_exists(fn)) vx::fail("%s: %s is missing", h, fn.c_str()); Mp4 m = mp4_parse(vx::fs_read(fn), false); if (!m.ok) vx::fail("%s: %s: %s", h, fn.c_str(), m.err.c_str());
            std::vector<Sample> w; for (auto &f : s.f) { if (f.vid) { Sample x{}; x.dts = f.dts; x.cts = (int32_t) (f.pts - f.dts); x.key = f.rai; for (auto &n : f.nals) x.data += be(n.size(), 4) + n; w.push_back(x); } else for (size_t k = 0; k < f.raw.size(); k++) { Sample x{}; x.dts = f.dts + 90000ull * 1024 * k / HZ[arate]; x.key = true; x.data = f.raw[k]; w.push_back(x); } }
            bool fin = done && i + 1 == r.s.size(); uint64_t end = s.dts + (uint64_t) s.dur; if (m.s.size() != w.size()) vx::fail("%s: %s has %zu samples, not %zu", h, fn.c_str(), m.s.size(), w.size()); if (m.tfdt != s.dts || m.ept != s.f[0].pts) vx::fail("%s: %s starts at %llu, shows at %llu, not %llu, %llu", h, fn.c_str(), (unsigned long long) m.tfdt, (unsigned long long) m.ept, (unsigned long long) s.dts, (unsigned long long) s.f[0].pts); if (m.sdur != (uint64_t) s.dur) vx::fail("%s: %s: the index says %llu, not %lld", h, fn.c_str(), (unsigned long long) m.sdur, (long long) s.dur); if (m.seq != i) { if (m.seq != i + 1) vx::fail("%s: %s has number %u", h, fn.c_str(), m.seq); }
            for (size_t k = 0; k < w.size(); k++) { auto &a = m.s[k]; auto &b = w[k]; if (a.data != b.data || a.cts != b.cts || a.key != b.key || a.dts != b.dts) vx::fail("%s: sample %zu of %s: %zu bytes at %llu%+d%s, not %zu bytes at %llu%+d%s", h, k, fn.c_str(), a.data.size(), (unsigned long long) a.dts, a.cts, a.key ? " key" : "", b.data.size(), (unsigned long long) b.dts, b.cts, b.key ? " key" : ""); bool lastk = k + 1 == w.size(); if (lastk && !fin && a.dts + a.dur != end && end > a.dts) vx::fail("%s: the last sample of %s lasts to %llu, the segment to %llu", h, fn.c_str(), (unsigned long long) (a.dts + a.dur), (unsigned long long) end); }
        }
        for (size_t i = r.closed > (size_t) nsegs ? r.closed - (size_t) nsegs : 0; i < r.closed; i++) if (r.s[i].dur > 0) r.list += std::to_string(r.s[i].dts) + "+" + std::to_string(r.s[i].dur) + " ";
    }
    size_t n = 0; for (auto &f : vx::fs_list(dir + "/")) if (f.find(".init.mp4") == string::npos && f.find(".mp4") != string::npos) n++; if (n != files) vx::fail("%s: %zu fragments, not %zu", h, n, files);
    string mp = dir + "/index.mpd"; bool ex = vx::fs_exists(mp); if (!wrote || !all) { if (!all && ex) vx::fail("%s: a manifest before the bit rates are known", h); return; } if (!ex) { if (done) vx::fail("%s: no manifest", h); return; } 
    // the playlist is written when a segment of any representation is closed: at the end it is up to date
    if (!done) return;
    auto s = vx::fs_read(mp); if (s.compare(0, 21, "<?xml version=\"1.0\"?>") || s.rfind("</MPD>\n") != s.size() - 7) vx::fail("%s: bad manifest", h); size_t at = 0, sets = 0;
    for (size_t p = 0; (p = s.find("<Representation", p)) != string::npos; p += 5) sets++; if (sets != reps.size()) vx::fail("%s: %zu representations", h, sets);
    for (auto &r : reps) {
        string pid = std::to_string(r.vid ? VP : AP); at = s.find("<Representation\n          id=\"" + pid + "\"");
        for (at = 0; (at = s.find("<Representation", at)) != string::npos; at++) if (attr(s, at, "id") == pid) break; if (at == string::npos) vx::fail("%s: no representation %s", h, pid.c_str()); size_t e = s.find("</Representation>", at); string got; for (size_t p = at; (p = s.find("<S ", p)) < e; p++) got += attr(s, p, "t") + "+" + attr(s, p, "d") + " ";
        if (got != r.list) vx::fail("%s: representation %s lists %s, expected %s", h, pid.c_str(), got.c_str(), r.list.c_str()); if (attr(s, at, "timescale") != "90000" || attr(s, at, "media") != "$RepresentationID$.$Time$.mp4" || attr(s, at, "initialization") != "$RepresentationID$.init.mp4" || atol(attr(s, at, "bandwidth").c_str()) <= 0) vx::fail("%s: bad template", h);
        string cod = attr(s, at, "codecs"), want = r.vid ? "avc1." : "mp4a.40." + std::to_string(aprof); if (r.vid) { const string &x = spsx.empty() ? SPS() : spsx; char b[8]; for (int i = 1; i < 4; i++) { snprintf(b, sizeof b, "%02x", (unsigned char) x[(size_t) i]); want += b; } } for (auto &c : cod) c = (char) tolower(c); if (cod != want) vx::fail("%s: codecs %s, not %s", h, cod.c_str(), want.c_str());
        Mp4 m = mp4_parse(vx::fs_read(dir + "/" + pid + ".init.mp4"), true); if (!m.ok) vx::fail("%s: %s.init.mp4: %s", h, pid.c_str(), m.err.c_str()); if (m.scale != 90000 || m.mime != (r.vid ? "vide" : "soun")) vx::fail("%s: %s.init.mp4: time scale %u, %s", h, pid.c_str(), m.scale, m.mime.c_str());
        if (r.vid) { const string &x = spsx.empty() ? SPS() : spsx; string c = string("\1", 1) + x.substr(1, 3) + "\xff\xe1" + be(x.size(), 2) + x + "\1" + be(PPS.size(), 2) + PPS; if (m.codec != "avc1" || m.conf.substr(0, c.size()) != c) vx::fail("%s: another decoder configuration", h); if (m.width != spsw || m.height != spsh) vx::fail("%s: %dx%d, not %dx%d", h, m.width, m.height, spsw, spsh); } else { if (m.codec != "mp4a" || m.conf.substr(0, 2) != be((uint64_t) (aprof << 11 | arate << 7 | achan << 3), 2)) vx::fail("%s: AAC configuration of %zu bytes", h, m.conf.size()); if (m.channels != 2 || m.rate != (HZ[arate] < 65536 ? (int) HZ[arate] : 0)) vx::fail("%s: %d channels, %d Hz", h, m.channels, m.rate); }
    }
}
// ---- the request
static Http start(const string &path, long len, const string &method = "PUT", const string &extra = "") { Http h; h.name = hist; h.open(); h.c->send(Http::req(path, "1.1", method, (len < 0 ? string("Transfer-Encoding: chunked\r\n") : "Content-Length: " + std::to_string(len) + "\r\n") + extra)); return h; }
static string chunk(const string &d) { char b[16]; snprintf(b, sizeof b, "%zx\r\n", d.size()); return b + d + "\r\n"; }
static void finish(Http &h) { vx::pump(); h.check(); if (h.status == 0) vx::note("closed %d log %s", (int) h.c->closed, vx::errlog().c_str()); if (h.status != 204 || !h.complete) vx::fail("%s: answered %d%s", hist.c_str(), h.status, h.complete ? "" : ", incomplete"); h.c->fin(); vx::pump(); for (auto &f : vx::open_files()) if (f != "/vxfs/log/error.log") vx::fail("%s: %s stays open", hist.c_str(), f.c_str()); if (!vx::bad_fds.empty()) vx::fail("%s: %s", hist.c_str(), vx::bad_fds[0].c_str()); }
static void upload(const string &path, const string &b, bool chunked, size_t piece = 0)
{
    Http h = start(path, chunked ? -1 : (long) b.size()); if (!piece) piece = b.size() + 1; for (size_t p = 0; p < b.size(); p += piece) { string d = b.substr(p, piece); h.c->send(chunked ? chunk(d) : d); if (piece <= b.size()) vx::pump(); } if (chunked) h.c->send("0\r\n\r\n"); finish(h);
}
static void wipe() { clean("/vxfs/hls/n"); clean("/vxfs/dash/n"); }
// ---- every sequence of frames
static const uint64_t BASES[] = { 900000, (1ull << 33) - 200000, 90000 };
static int mux_roots() { return 3 * 3 * 2; }
static void mux_run(int root)
{
    int prog = root % 3, shape = root / 3 % 3, ch = root / 9; ts_reserved = false; // prog 0 both, 1 video, 2 audio; shape: unbounded, bounded, unbounded at the wrap
    vx::batch([&] {
        fseq = 0; Upload u; u.m.video = prog != 2; u.m.audio = prog != 1; bool unb = shape != 1; uint64_t t = shape == 2 ? BASES[1] : BASES[0], ta = t; hist = string(prog == 0 ? "audio and video" : prog == 1 ? "video" : "audio") + (unb ? ", open PES" : "") + (shape == 2 ? ", wrap" : "") + ":"; u.m.psi();
        int n = vx::tier_pick(5, 6); static const char *NM[] = { "key", "inter", "audio", "gap", "other", "tables", "big" }; std::vector<int> ev; if (shape == 2) for (int i = 0; i < 2; i++) ev.push_back(prog == 2 ? 2 : 0); // the first stamps known are before the wrap
        for (int i = 0; i < n; i++) { int e; if (prog == 2) e = 2 + vx::choose(4); else if (prog == 1) { e = vx::choose(6); if (e >= 2) e++; } else e = vx::choose(7); ev.push_back(e); }
        ev.push_back(prog == 2 ? 2 : 0); if (prog == 0) ev.push_back(2); ev.push_back(prog == 2 ? 2 : 1);
        // a piece per event, so that the presentation can be judged in between
        string path = "/ts/n"; wipe(); Http h = start(path, -1); size_t sent = 0;
        for (size_t i = 0; i < ev.size(); i++) {
            hist += string(" ") + NM[ev[i]];
            switch (ev[i]) {
            case 0: u.put(vframe(true, t, 0, 30, unb)); t += 45000; ta = std::max(ta, t - 20000); break;
            case 1: u.put(vframe(false, t, 3600, 31, unb, true)); t += 45000; break;
            case 2: u.put(aframe(ta, 3)); ta += prog == 2 ? 60000 : 6270; break;
            case 3: t += 155000; ta += 155000; break;
            case 4: u.m.pkt(VP == 0 ? 0 : 0x1fff, string(184, '\xff'), false); u.m.pkt(0x300, string(184, 'u'), true); if (prog != 2) u.m.pkt(VP, "", false, false, (int64_t) (t - 1000), true); break;
            case 5: u.m.psi(); break;
            case 6: u.put(vframe(true, t, 7200, 900, unb)); t += 45000; ta = std::max(ta, t - 20000); break;
            }
            if (ev[i] == 4 && prog != 2) u.m.haspcr = false; // a later reference may replace that of an unfinished frame
            if (ch && i % 2 && sent < u.m.out.size()) { h.c->send(chunk(u.m.out.substr(sent))); sent = u.m.out.size(); vx::pump(); judge_hls("/vxfs/hls/n", u, prog != 2, false); judge_dash("/vxfs/dash/n", u, prog != 2, prog != 1, false); }
        }
        if (sent < u.m.out.size()) h.c->send(chunk(u.m.out.substr(sent))); h.c->send("0\r\n\r\n"); finish(h);
        judge_hls("/vxfs/hls/n", u, prog != 2, true); judge_dash("/vxfs/dash/n", u, prog != 2, prog != 1, true); vx::observe_u64(vx::fs_list("/vxfs/hls/n").size());
    });
}
// ---- frames of every size
static const int ALIGN = 64;
static int align_roots() { return 8; }
static void align_run(int root)
{
    bool unb = root & 1, dts = root & 2, pcr = root & 4; ts_reserved = false; uint64_t n = 0;
    for (int split : { 0, 1, 30, 183 }) for (int nopay = 0; nopay < 2; nopay++) for (int size = 5; size < 600; size += split == 1 ? 37 : split ? 7 : 1) {
        Upload u; fseq = 0; u.m.split = split; hist = string("frames of ") + std::to_string(size) + " bytes" + (unb ? ", open PES" : "") + (dts ? ", DTS" : "") + (pcr ? "" : ", no clock reference") + (split ? ", in packets of " + std::to_string(split) : "") + (nopay ? ", packets without payload" : ""); u.m.psi(); uint64_t t = 900000; u.m.haspcr = pcr && !nopay;
        for (int i = 0; i < 5; i++) { Fr f{ true, t + (dts ? 7200 : 0), t, i % 3 == 0, unb, "", {}, {} }; string sl = nal(i % 3 ? 0x41 : 0x65, size, ""); sl += (char) ('0' + i); string S4("\0\0\0\1", 4); if (i == 0) f.es = S4 + SPS() + S4 + PPS; f.es += S4 + sl; f.nals = { sl }; u.put(f, pcr); if (nopay) u.m.pkt(VP, "", false, false, pcr ? (int64_t) t : -1, true); Fr a = aframe(t, 1, size); u.put(a); if (nopay) u.m.pkt(AP, "", false, false, -1, true); t += 40000; }
        wipe(); string path = "/ts/n"; for (size_t k = 0; k < u.done.size(); k++) {} upload(path, u.m.out, size & 1, split == 0 && size % 50 == 0 ? 188 * 3 + 1 : 0);
        judge_hls("/vxfs/hls/n", u, true, true); judge_dash("/vxfs/dash/n", u, true, true, true); n++; }
    vx::count(n, n, n); vx::note("%llu uploads", (unsigned long long) n);
}
// ---- what the picture header says
static int sps_roots() { return 2; }
static void sps_run(int root)
{
    static const long MW[] = { 1, 11, 40, 120, 255, 256, 1024 }; uint64_t n = 0; ts_reserved = false;
    for (int prof : { 66, 77, 100, 110, 122, 244 }) for (int cf : { 1, 0, 2, 3 }) { if (prof < 100 && cf != 1) continue; for (int scaling = 0; scaling < 4; scaling++) { if (scaling && prof < 100) continue; for (int poc = 0; poc < 3; poc++) for (int fmo = 0; fmo < 2; fmo++) for (int crop = 0; crop < 3; crop++) {
        int k = (poc + crop) % 2; if (k != root) continue; Avc a; a.prof = prof; a.cf = cf; a.scaling = scaling; a.poc = poc; a.fmo = fmo; a.level = poc == 0 ? 30 : poc == 1 ? 41 : 9; a.mbw = MW[n % 7]; a.mbh = 2 + MW[(n / 7) % 7]; a.refs = poc == 0 ? 4 : 0; a.crop = crop > 0; a.l = crop == 2; a.r = crop ? 2 : 0; a.t = crop == 2 ? 2 : 0; a.b = crop ? 1 : 0;
        int cx = cf == 1 || cf == 2 ? 2 : 1, cy = (cf == 1 ? 2 : 1) * (2 - fmo); long w = a.mbw * 16 - (crop ? cx * (a.l + a.r) : 0), h = (2 - fmo) * a.mbh * 16 - (crop ? cy * (a.t + a.b) : 0);
        hist = "AVC profile " + std::to_string(prof) + ", chroma format " + std::to_string(cf) + ", scaling " + std::to_string(scaling) + ", order type " + std::to_string(poc) + (fmo ? "" : ", fields") + (crop ? ", cropped" : "") + ", " + std::to_string(a.mbw) + "x" + std::to_string(a.mbh) + " macroblocks"; spsx = avcsps(a); spsw = (int) w; spsh = (int) h;
        Upload u; u.m.audio = false; u.m.psi(); uint64_t t = 900000; string S4("\0\0\0\1", 4); for (int i = 0; i < 4; i++) { Fr f{ true, t, t, i == 0 || i == 2, false, "", {}, {} }; string sl = nal(0x65, 20, ""); if (f.rai) f.es = S4 + spsx + S4 + PPS; f.es += S4 + sl; f.nals = { sl }; u.put(f); t += 50000; }
        wipe(); upload("/ts/n", u.m.out, false); judge_hls("/vxfs/hls/n", u, true, true); judge_dash("/vxfs/dash/n", u, true, false, true); n++; } } }
    vx::count(n, n, n); vx::note("%llu headers", (unsigned long long) n);
}
// ---- every kind of AAC
static int aac_roots() { return 4; }
static void aac_run(int root)
{
    ts_reserved = false; aprof = root + 1; uint64_t n = 0; for (arate = 0; arate < 13; arate++) for (achan = 1; achan < 8; achan++) for (int k = 1; k <= 12; k++) for (int vid = 0; vid < 2; vid++) { if (achan > 2 && vid) continue; fseq = 0; Upload u; u.m.video = vid; hist = "AAC profile " + std::to_string(aprof) + ", " + std::to_string(HZ[arate]) + " Hz, " + std::to_string(achan) + " channels, " + std::to_string(k) + " frames in a packet" + (vid ? ", video" : ""); u.m.psi(); uint64_t t = 900000; for (int i = 0; (int64_t) (t - 900000) < 2 * MIN + 60000 || i < 4; i++) { if (vid) u.put(vframe(i % 2 == 0, t, 0, 30, false)); u.put(aframe(t, k, 12, k % 2)); t += std::max<uint64_t>(90000ull * 1024 * (uint64_t) k / HZ[arate], 9000); } if (vid) u.put(vframe(true, t, 0, 30, false));
        wipe(); upload("/ts/n", u.m.out, k & 1); judge_hls("/vxfs/hls/n", u, vid, true); judge_dash("/vxfs/dash/n", u, vid, true, true); n++; }
    vx::count(n, n, n); vx::note("%llu uploads", (unsigned long long) n);
}
// ---- how the request arrives
static Upload sample(int k = 8) { Upload u; fseq = 0; u.m.psi(); uint64_t t = 900000; for (int i = 0; i < k; i++) { u.put(vframe(i % 3 == 0, t, 0, 30 + i * 40, i % 2)); u.put(aframe(t, 2, 20 + i * 30, i % 2)); t += 45000; } Fr f = vframe(true, t, 0, 40, false); u.put(f); return u; }
static int http_roots() { return 5; }
static void http_run(int root)
{
    ts_reserved = false; Upload u = sample(); const string &b = u.m.out; uint64_t n = 0; auto ok = [&] { judge_hls("/vxfs/hls/n", u, true, true); judge_dash("/vxfs/dash/n", u, true, true, true); n++; };
    auto nxt = [&](Http &h) { Http k; k.c = h.c; k.name = hist + ", next request"; k.raw = h.raw.substr(h.pos); wipe(); k.c->send(Http::req("/ts/n", "1.1", "POST", "Content-Length: " + std::to_string(b.size()) + "\r\n") + b); vx::pump(); k.check(); if (k.status != 204) vx::fail("%s: answered %d", k.name.c_str(), k.status); ok(); k.c->fin(); vx::pump(); };
    if (root == 0) for (size_t cut = 0; cut <= b.size(); cut += cut < 400 || b.size() - cut < 200 ? 1 : 61) for (int how = 0; how < 2; how++) { // the request in two parts
        hist = (how ? "chunked, " : "") + string("cut after ") + std::to_string(cut) + " bytes of the body"; wipe(); Http h = how ? start("/ts/n", -1) : start("/ts/n", (long) b.size()); if (cut) h.c->send(how ? chunk(b.substr(0, cut)) : b.substr(0, cut)); vx::pump(); h.collect(); if (h.head && cut < b.size()) vx::fail("%s: answered %d before the end", hist.c_str(), h.status); if (cut < b.size()) h.c->send(how ? chunk(b.substr(cut)) : b.substr(cut)); if (how) h.c->send("0\r\n\r\n"); if (cut % 5 == 0) { vx::pump(); h.check(); if (h.status != 204) vx::fail("%s: answered %d", hist.c_str(), h.status); ok(); nxt(h); } else { finish(h); ok(); } }
    if (root == 1) { string req = Http::req("/ts/n", "1.1", "PUT", "Transfer-Encoding: chunked\r\n") + chunk(b.substr(0, 700)) + chunk(b.substr(700)) + "0\r\n\r\n"; for (size_t cut = 1; cut < req.size(); cut += cut < 1100 || req.size() - cut < 50 ? 1 : 53) { hist = "request cut after " + std::to_string(cut) + " bytes"; wipe(); Http h; h.name = hist; h.open(); h.c->send(req.substr(0, cut)); vx::pump(); h.c->send(req.substr(cut)); finish(h); ok(); } }
    if (root == 2) for (size_t piece : { (size_t) 1, (size_t) 7, (size_t) 187, (size_t) 188, (size_t) 189, (size_t) 1000, (size_t) 5000 }) for (int how = 0; how < 2; how++) { hist = (how ? "chunks of " : "pieces of ") + std::to_string(piece); wipe(); upload("/ts/n", b, how, piece); ok(); }
    if (root == 4) for (int k = 1; k < 60; k++) { Upload v = sample(k); for (int how = 0; how < 2; how++) for (size_t piece : { (size_t) 0, (size_t) 16384, (size_t) 5000 }) { hist = std::to_string(v.m.out.size()) + " bytes" + (how ? " in chunks" : "") + (piece ? " of " + std::to_string(piece) : ""); wipe(); upload("/ts/n", v.m.out, how, piece); judge_hls("/vxfs/hls/n", v, true, true); judge_dash("/vxfs/dash/n", v, true, true, true); n++; } }
    if (root == 3) { // connections that end early, at every byte
        for (size_t cut = 0; cut < b.size(); cut += cut < 1200 ? 3 : 37) for (int how = 0; how < 2; how++) {
            hist = string(how ? "reset" : "closed") + " after " + std::to_string(cut) + " bytes"; wipe(); Http h = start("/ts/n", (long) b.size()); if (cut) h.c->send(b.substr(0, cut)); vx::pump(); if (how) h.c->reset(); else h.c->fin(); vx::pump(); if (!h.c->closed) vx::fail("%s: not closed", hist.c_str()); for (auto &f : vx::open_files()) if (f != "/vxfs/log/error.log") vx::fail("%s: %s stays open", hist.c_str(), f.c_str());
            Upload v; v.m = u.m; size_t k = 0; Upload w; w.m.psi(); for (auto &f : std::vector<Fr>(u.done)) (void) f; (void) k; Upload x; fseq = 0; x.m.psi(); uint64_t t = 900000; auto put = [&](const Fr &f) { Upload y = x; y.put(f); if (y.m.out.size() <= cut) x = y; else { if (f.vid && x.pend && x.m.out.size() + 188 <= cut) { x.done.push_back(x.last); x.pend = false; } cut = std::min(cut, (size_t) 0); } }; size_t keep = cut; for (int i = 0; i < 8; i++) { put(vframe(i % 3 == 0, t, 0, 30 + i * 40, i % 2)); if (cut != keep) break; put(aframe(t, 2, 20 + i * 30, i % 2)); if (cut != keep) break; t += 45000; } cut = keep;
            if (x.m.out.size() >= 376 && !x.done.empty()) { judge_hls("/vxfs/hls/n", x, true, true); n++; } else n++; } }
    vx::count(n, n, n); vx::note("%llu requests", (unsigned long long) n);
}
// ---- damage
static int bytes_roots() { return 12; }
static void bytes_run(int root)
{
    ts_reserved = false; Upload u = sample(3); string good = u.m.out; uint64_t n = 0; static const unsigned char X[] = { 0, 1, 0x47, 0x7f, 0x80, 0xff, 0x40, 0x10, 0x20, 0x0f, 0xb7, 0x1f };
    for (size_t at = 0; at < good.size(); at++) {
        if (at > 188 * 4 && at % 188 > 60 && at % 5) continue; string b = good; if (b[at] == (char) X[root]) continue; b[at] = (char) X[root]; hist = "byte " + std::to_string(at) + " is " + std::to_string((int) X[root]); wipe();
        Http h = start("/ts/n", (long) b.size()); h.c->send(b.substr(0, 500)); vx::pump(); if (!h.c->closed) h.c->send(b.substr(500)); vx::pump(); h.collect(); if (h.status && h.status != 204 && h.status < 400) vx::fail("%s: answered %d", hist.c_str(), h.status); if (!h.c->closed) { h.c->fin(); vx::pump(); } if (!h.c->closed) vx::fail("%s: not closed", hist.c_str()); for (auto &f : vx::open_files()) if (f != "/vxfs/log/error.log") vx::fail("%s: %s stays open", hist.c_str(), f.c_str()); n++; vx::errlog().clear();
        if (at % 64 == 0) { hist += ", next upload"; wipe(); Upload v = sample(); upload("/ts/n", v.m.out, false); judge_hls("/vxfs/hls/n", v, true, true); judge_dash("/vxfs/dash/n", v, true, true, true); } }
    // the packets of every PES in another order or left out
    for (size_t i = 0; i * 188 < good.size(); i++) for (int how = 0; how < 3; how++) { string b = good; hist = "packet " + std::to_string(i) + (how == 0 ? " is missing" : how == 1 ? " comes twice" : " comes last"); string p = b.substr(i * 188, 188); if (how != 1) b.erase(i * 188, 188); if (how == 1) b.insert(i * 188, p); if (how == 2) b += p; if (root % 4) b = b.substr(0, b.size() - (size_t) root); wipe(); Http h = start("/ts/n", (long) b.size()); h.c->send(b); vx::pump(); if (!h.c->closed) { h.c->fin(); vx::pump(); } if (!h.c->closed) vx::fail("%s: not closed", hist.c_str()); n++; }
    vx::count(n, n, n); vx::note("%llu uploads", (unsigned long long) n);
}
// ---- segments of limited size
static int size_roots() { return 4; }
static void size_run(int root)
{
    ts_reserved = false; bool audio = root & 1, unb = root & 2; vx::batch([&] {
        Upload u; fseq = 0; u.m.audio = audio; u.m.psi(); uint64_t t = 900000; hist = "size limit:"; int n = 7; for (int i = 0; i < n; i++) { int s = vx::choose(3); hist += s == 0 ? " small" : s == 1 ? " large" : " key"; u.put(vframe(s == 2 || i == 0, t, 0, s == 1 ? 1400 : 60, unb)); if (audio) u.put(aframe(t + 3000, 1, 100)); t += 30000; }
        clean("/vxfs/hlss/n"); clean("/vxfs/dashs/n"); upload("/size/n", u.m.out, true);
        // every frame once and in order, no segment that goes on after the limit, durations that add up
        std::vector<Pes> all; std::map<int, int> cc; long k = 0; uint64_t first = 0, last = 0; std::vector<uint64_t> dur; for (; vx::fs_exists("/vxfs/hlss/n/" + std::to_string(k) + ".ts"); k++) { string fn = "/vxfs/hlss/n/" + std::to_string(k) + ".ts"; string b = vx::fs_read(fn); TsFile f = ts_parse(b, &cc, true); if (!f.ok) vx::fail("%s: %s: %s", hist.c_str(), fn.c_str(), f.err.c_str()); if (f.pes.empty()) vx::fail("%s: %s is empty", hist.c_str(), fn.c_str()); size_t lim = f.pes.back().at * 188; if (lim >= 1500 && lim > 376) vx::fail("%s: %s went on at %zu bytes", hist.c_str(), fn.c_str(), lim); for (auto &p : f.pes) all.push_back(p); }
        if (all.size() != u.done.size()) vx::fail("%s: %zu frames in the segments, %zu uploaded", hist.c_str(), all.size(), u.done.size()); for (size_t i = 0; i < all.size(); i++) if (all[i].data != u.done[i].es || all[i].dts != u.done[i].dts) vx::fail("%s: frame %zu is another", hist.c_str(), i); (void) first; (void) last;
        std::vector<string> l; lines(vx::fs_read("/vxfs/hlss/n/index.m3u8"), l); for (auto &x : l) if (x.compare(0, 8, "#EXTINF:") == 0) { double d = atof(x.c_str() + 8); if (d < 0 || d > 3.1) vx::fail("%s: a segment of %s", hist.c_str(), x.c_str()); }
        std::vector<Sample> s; uint64_t end = 0; std::vector<std::pair<uint64_t, string>> fs; for (auto &f : vx::fs_list("/vxfs/dashs/n/")) if (f.find("/256.") != string::npos && f.find("init") == string::npos) { if (f.find(".mp4") != string::npos) fs.push_back({ strtoull(f.c_str() + f.find("/256.") + 5, nullptr, 10), f }); } std::sort(fs.begin(), fs.end()); mp4_scale = 90000; for (auto &f : fs) { Mp4 m = mp4_parse(vx::fs_read(f.second), false); if (!m.ok) vx::fail("%s: %s: %s", hist.c_str(), f.second.c_str(), m.err.c_str()); if (end && m.tfdt != end) vx::fail("%s: %s starts at %llu, the one before ends at %llu", hist.c_str(), f.second.c_str(), (unsigned long long) m.tfdt, (unsigned long long) end); end = m.tfdt + m.sdur; size_t by = 0; for (size_t i = 0; i < m.s.size(); i++) { if (by + 16 * i >= 900) vx::fail("%s: %s went on at %zu bytes", hist.c_str(), f.second.c_str(), by); by += m.s[i].data.size(); s.push_back(m.s[i]); } }
        size_t i = 0; for (auto &f : u.done) if (f.vid) { string d; for (auto &x : f.nals) d += be(x.size(), 4) + x; if (i >= s.size() || s[i].data != d || s[i].dts != f.dts || s[i].key != f.rai) vx::fail("%s: sample %zu of %zu is another", hist.c_str(), i, s.size()); i++; } if (i != s.size()) vx::fail("%s: %zu samples, %zu frames", hist.c_str(), s.size(), i);
    });
}
// ---- live: what is listed is there; what is over goes away
static int clean_roots() { return 2; }
static void clean_run(int root)
{
    ts_reserved = false; wipe(); hist = "live upload"; Upload u; fseq = 0; u.m.psi(); uint64_t t = 900000; Http h = start("/ts/n", -1); size_t sent = 0, mx = 0, mem = 0; vx::fs_mkdir("/vxfs/hls/old"); 
    for (int i = 0; i < 300; i++) {
        u.put(vframe(i % (root ? 3 : 7) == 0, t, 0, 30, i % 2)); u.put(aframe(t, 2)); t += 45000; h.c->send(chunk(u.m.out.substr(sent))); sent = u.m.out.size(); vx::advance(500); hls_cleanup("/vxfs/hls"); hls_cleanup("/vxfs/dash"); hist = "live upload after " + std::to_string(i) + " frames";
        if (vx::fs_exists("/vxfs/hls/n/index.m3u8")) { std::vector<string> l; lines(vx::fs_read("/vxfs/hls/n/index.m3u8"), l); int k = 0; for (auto &x : l) if (!x.empty() && x[0] != '#') { k++; if (!vx::fs_exists("/vxfs/hls/n/" + x)) vx::fail("%s: %s is listed and gone", hist.c_str(), x.c_str()); } if (i > 40 && k != 3) vx::fail("%s: %d segments are listed", hist.c_str(), k); } else if (i > 10) vx::fail("%s: no playlist", hist.c_str());
        if (vx::fs_exists("/vxfs/dash/n/index.mpd")) { string s = vx::fs_read("/vxfs/dash/n/index.mpd"); size_t at = 0; while ((at = s.find("<Representation", at)) != string::npos) { string id = attr(s, at, "id"); size_t e = s.find("</Representation>", at); for (size_t p = at; (p = s.find("<S ", p)) < e; p++) { string f = "/vxfs/dash/n/" + id + "." + attr(s, p, "t") + ".mp4"; if (!vx::fs_exists(f)) vx::fail("%s: %s is listed and gone", hist.c_str(), f.c_str()); } if (!vx::fs_exists("/vxfs/dash/n/" + id + ".init.mp4")) vx::fail("%s: the initialization of %s is gone", hist.c_str(), id.c_str()); at++; } } else if (i > 20) vx::fail("%s: no manifest", hist.c_str());
        u.done.clear(); u.m.out.clear(); u.ends.clear(); sent = 0; h.c->take(); vx::fs_log().clear(); vx::errlog().clear(); if (i == 99) mem = mallinfo2().uordblks; if (i == 299 && mallinfo2().uordblks > mem + 30000) vx::fail("%s: the last 200 frames keep %zu bytes", hist.c_str(), mallinfo2().uordblks - mem);
        mx = std::max(mx, vx::fs_list("/vxfs/hls/n/").size() + vx::fs_list("/vxfs/dash/n/").size()); }
    if (mx > 60) vx::fail("%zu files at a time", mx); h.c->send("0\r\n\r\n"); finish(h); vx::advance(60000); for (int i = 0; i < 2; i++) { hls_cleanup("/vxfs/hls"); hls_cleanup("/vxfs/dash"); } for (const char *d : { "/vxfs/hls/n", "/vxfs/dash/n" }) if (vx::fs_exists(d) || !vx::fs_list(string(d) + "/").empty()) vx::fail("%s is there a minute after the upload", d); vx::count(300, 300, 300); vx::note("%zu files", mx);
}
VX_SCENARIOS(
    { "mux", mux_roots, mux_run, "every sequence of 5 (6) of 7 events (key, inter, large key frame, audio, 1.7 s gap, foreign packets and clock references alone, repeated tables) x audio and video, one of them x open PES, PES with length, wrap of the clock; judged at the end, or after every second event too" },
    { "align", align_roots, align_run, "frames of 5-600 bytes x open or not x DTS x clock reference x 4 packet fillings x packets without payload" },
    { "sps", sps_roots, sps_run, "AVC headers of 6 profiles x 4 chroma formats x 4 scaling matrices x 3 picture order types x frames, fields x 3 croppings" },
    { "aac", aac_roots, aac_run, "4 profiles x 13 rates x 7 channel configurations x 1-12 frames in a packet x with or without video" },
    { "http", http_roots, http_run, "body and request cut in two anywhere, pieces and chunks of 7 sizes, bodies of 1-60 frames at once or in parts, next request on the connection, connection closed or reset anywhere" },
    { "bytes", bytes_roots, bytes_run, "each byte replaced by 12 values, each packet missing, doubled, moved" },
    { "size", size_roots, size_run, "every sequence of 7 of 3 frames under a size limit x audio x open PES" },
    { "clean", clean_roots, clean_run, "a live upload of 300 frames, the cache manager after each" }
)
