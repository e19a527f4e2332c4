// ISO base media (fragmented MP4) reader, written from ISO/IEC 14496-12, -14, -15.
#pragma once
#include "rtmp.h"
namespace rt {
static uint64_t mp4_scale = 1000;           // the time scale the index must have
struct Box { string type; size_t beg, body, end; };
struct Sample { uint64_t dts; uint32_t dur; int32_t cts; bool key; string data; };
struct Mp4 { bool ok = true; string err, brand; uint32_t track = 0, scale = 0; string codec, conf, mime; int width = 0, height = 0, channels = 0, rate = 0; uint32_t seq = 0; uint64_t tfdt = 0; std::vector<Sample> s; bool sidx = false; uint64_t ept = 0, sdur = 0; };
struct Mp4Reader {
    const string &b; Mp4 m; bool init; uint64_t refat = 0, reflen = 0; size_t moof = 0, mdb = 0, mde = 0; struct Run { uint32_t off; std::vector<Sample> s; std::vector<uint32_t> size; }; std::vector<Run> runs; bool ver64 = false;
    Mp4Reader(const string &d, bool i) : b(d), init(i) { top(); }
    void bad(const string &e) { if (m.ok) { m.ok = false; m.err = e; } }
    uint64_t u(size_t p, int n, size_t end) { if (p + (size_t) n > end) { bad("box too short"); return 0; } return rbe(b, p, n); }
    std::vector<Box> kids(size_t p, size_t end, const char *in) { std::vector<Box> v; while (m.ok && p < end) { if (p + 8 > end) { bad(string("garbage at the end of ") + in); break; } size_t n = (size_t) rbe(b, p, 4); Box x{ b.substr(p + 4, 4), p, p + 8, p + n }; if (n < 8 || p + n > end) { bad("box '" + x.type + "' in " + in + " has size " + std::to_string(n) + " of " + std::to_string(end - p)); break; } v.push_back(x); p += n; } return v; }
    const Box *one(const std::vector<Box> &v, const char *t, bool need = true) { const Box *r = nullptr; for (auto &x : v) if (x.type == t) { if (r) bad(string("two boxes ") + t); r = &x; } if (!r && need) bad(string("no box ") + t); static const Box none{ "", 0, 0, 0 }; return r ? r : need ? &none : nullptr; }
    void top()
    {
        auto v = kids(0, b.size(), "the file"); if (!m.ok) return;
        if (v.empty() || v[0].type != (init ? "ftyp" : "styp")) return bad("does not start with its type");
        if ((v[0].end - v[0].body) % 4 || v[0].end - v[0].body < 8) bad("bad type box");
        if (init) { if (v.size() != 2 || v[1].type != "moov") return bad("does not consist of ftyp and moov"); return moov(v[1]); }
        if (v.size() != 4 || v[1].type != "sidx" || v[2].type != "moof" || v[3].type != "mdat") { string s; for (auto &x : v) s += " " + x.type; return bad("consists of" + s); }
        sidx(v[1]); moof = v[2].beg; mdb = v[3].body; mde = v[3].end; if (m.sidx && (refat != moof || reflen != mde - moof)) bad("index refers to " + std::to_string(reflen) + " bytes at " + std::to_string(refat) + ", the fragment is " + std::to_string(mde - moof) + " at " + std::to_string(moof));
        frag(v[2]); if (!m.ok) return;
        uint64_t t = m.tfdt; size_t at = mdb; for (auto &r : runs) { at = moof + r.off; for (size_t i = 0; i < r.s.size(); i++) { auto &s = r.s[i]; if (at < mdb || at + r.size[i] > mde) return bad("sample outside of mdat"); s.dts = t; t += s.dur; s.data = b.substr(at, r.size[i]); at += r.size[i]; m.s.push_back(s); } }
        if (at != mde && !m.s.empty()) bad("bytes of mdat that belong to no sample");
    }
    void sidx(const Box &x) { m.sidx = true; uint64_t v = u(x.body, 4, x.end) >> 24; int w = v ? 8 : 4; m.track = (uint32_t) u(x.body + 4, 4, x.end); size_t p = x.body + 12; if (u(x.body + 8, 4, x.end) != mp4_scale) bad("index with another time scale"); m.ept = u(p, w, x.end); uint64_t first = u(p + (size_t) w, w, x.end); p += 2 * (size_t) w; if (u(p + 2, 2, x.end) != 1 || p + 16 != x.end) bad("index with other than one reference"); reflen = u(p + 4, 4, x.end); if (reflen >> 31) bad("index refers to another index"); refat = x.end + first; m.sdur = u(p + 8, 4, x.end); }
    void frag(const Box &x)
    {
        auto v = kids(x.body, x.end, "moof"); const Box *h = one(v, "mfhd"), *t = one(v, "traf"); if (!m.ok) return; m.seq = (uint32_t) u(h->body + 4, 4, h->end);
        auto w = kids(t->body, t->end, "traf"); h = one(w, "tfhd"); if (!m.ok) return; uint32_t fl = (uint32_t) u(h->body, 4, h->end) & 0xffffff; m.track = (uint32_t) u(h->body + 4, 4, h->end); if (fl & ~0x20000u) bad("tfhd with other flags"); if (!(fl & 0x20000) && mp4_scale == 1000) bad("offsets are not relative to moof");
        const Box *d = one(w, "tfdt"); if (!m.ok) return; bool l = u(d->body, 4, d->end) >> 24; m.tfdt = u(d->body + 4, l ? 8 : 4, d->end); if (d->end != d->body + (l ? 12 : 8)) bad("bad tfdt");
        for (auto &r : w) if (r.type == "trun") {
            uint32_t vf = (uint32_t) u(r.body, 4, r.end), n = (uint32_t) u(r.body + 4, 4, r.end); fl = vf & 0xffffff; size_t p = r.body + 8; Run run{ 0, {}, {} }; if (!(fl & 1)) bad("run without offset"); run.off = (uint32_t) u(p, 4, r.end); p += 4; if (fl & 4) bad("first sample flags");
            for (uint32_t i = 0; i < n && m.ok; i++) { Sample s{}; uint32_t sz = 0; s.key = true; if (fl & 0x100) { s.dur = (uint32_t) u(p, 4, r.end); p += 4; } else bad("no durations"); if (fl & 0x200) { sz = (uint32_t) u(p, 4, r.end); p += 4; } else bad("no sizes"); if (fl & 0x400) { s.key = !(u(p, 4, r.end) & 0x10000); p += 4; } if (fl & 0x800) { uint32_t c = (uint32_t) u(p, 4, r.end); p += 4; if (!(vf >> 24) && c > 0x7fffffff) bad("composition offset out of range"); if (!(vf >> 24) && c >= 0xff0000) bad("composition offset " + std::to_string(c)); s.cts = (int32_t) c; } run.s.push_back(s); run.size.push_back(sz); }
            if (p != r.end) bad("run of another size"); runs.push_back(run);
        }
        if (runs.size() != 1) bad("not one run");
    }
    void moov(const Box &x)
    {
        auto v = kids(x.body, x.end, "moov"); one(v, "mvhd"); const Box *e = one(v, "mvex"), *t = one(v, "trak"); if (!m.ok) return; auto ev = kids(e->body, e->end, "mvex"); const Box *tr = one(ev, "trex"); if (!m.ok) return; uint32_t tid = (uint32_t) u(tr->body + 4, 4, tr->end);
        auto tv = kids(t->body, t->end, "trak"); const Box *tk = one(tv, "tkhd"), *md = one(tv, "mdia"); if (!m.ok) return; m.track = (uint32_t) u(tk->body + (b[tk->body] ? 20 : 12), 4, tk->end); if (m.track != tid) bad("track and its defaults have different numbers"); if (!(u(tk->body, 4, tk->end) & 1)) bad("the track is not enabled");
        auto mv = kids(md->body, md->end, "mdia"); const Box *mh = one(mv, "mdhd"), *hd = one(mv, "hdlr"), *mi = one(mv, "minf"); if (!m.ok) return; m.scale = (uint32_t) u(mh->body + (b[mh->body] ? 20 : 12), 4, mh->end); m.mime = b.substr(hd->body + 8, 4);
        auto iv = kids(mi->body, mi->end, "minf"); one(iv, "dinf"); one(iv, m.mime == "vide" ? "vmhd" : "smhd"); const Box *sb = one(iv, "stbl"); if (!m.ok) return; auto sv = kids(sb->body, sb->end, "stbl"); const Box *sd = one(sv, "stsd"); one(sv, "stts"); one(sv, "stsc"); one(sv, "stsz"); one(sv, "stco"); if (!m.ok) return;
        if (u(sd->body + 4, 4, sd->end) != 1) bad("not one sample entry"); auto se = kids(sd->body + 8, sd->end, "stsd"); if (!m.ok || se.size() != 1) return bad("no sample entry"); auto &s = se[0]; m.codec = s.type;
        if (s.type == "avc1" || s.type == "hvc1" || s.type == "hev1") { m.width = (int) u(s.body + 24, 2, s.end); m.height = (int) u(s.body + 26, 2, s.end); auto k = kids(s.body + 78, s.end, "sample entry"); const Box *c = one(k, s.type == "avc1" ? "avcC" : "hvcC"); if (m.ok) m.conf = b.substr(c->body, c->end - c->body); }
        else if (s.type == "mp4a") { m.channels = (int) u(s.body + 16, 2, s.end); m.rate = (int) u(s.body + 24, 2, s.end); auto k = kids(s.body + 28, s.end, "sample entry"); const Box *c = one(k, "esds"); if (m.ok) esds(c->body + 4, c->end); }
        else bad("sample entry " + s.type);
    }
    size_t descr(size_t &p, size_t end, int tag) { if (u(p, 1, end) != (uint64_t) tag) { bad("no descriptor " + std::to_string(tag)); return 0; } p++; size_t n = 0; for (int i = 0; i < 4; i++) { int c = (int) u(p++, 1, end); n = n << 7 | (size_t) (c & 127); if (!(c & 128)) break; } if (p + n > end) { bad("descriptor " + std::to_string(tag) + " of size " + std::to_string(n) + " of " + std::to_string(end - p)); return 0; } return n; }
    void esds(size_t p, size_t end) { size_t n = descr(p, end, 3); if (!m.ok) return; if (p + n != end) return bad("ES descriptor of another size"); size_t e1 = end; if (u(p + 2, 1, end)) bad("flags of the ES descriptor"); p += 3; n = descr(p, e1, 4); if (!m.ok) return; size_t e2 = p + n; if (u(p, 1, e2) != 0x40) bad("not AAC"); p += 13; n = descr(p, e2, 5); if (!m.ok) return; m.conf = b.substr(p, n); p += n; if (p != e2) bad("decoder configuration of another size"); n = descr(p, e1, 6); if (m.ok && p + n != e1) bad("bytes after the descriptors"); }
};
inline Mp4 mp4_parse(const string &b, bool init) { Mp4Reader r(b, init); return r.m; }
}
