// Published media with known content and what a transport stream must hold for it.
#pragma once
#include "rtmp.h"
#include "ts.h"
namespace rt {
// ---- what is published.  0 K key, 1 I inter, 2 A AAC frame, 3 V AVC header, 4 H AAC header, 5 M MP3 frame
struct E { int k; uint32_t ts; int cts = 0; string data; std::vector<string> nals; string raw; int hv = -1, ha = -1; };
static const char KC[] = "KIAVHM";
struct VHdr { string sps, pps; bool hevc = false; string vps; }; struct AHdr { int obj, sr, ch; };
static int eseq; static std::vector<VHdr> vhs; static std::vector<AHdr> ahs;
static string avcc(const VHdr &v, int nb = 4) { return string("\x17\0\0\0\0", 5) + string("\x01\x42\xc0\x1e", 4) + string(1, (char) (0xfc | (nb - 1))) + "\xe1" + be(v.sps.size(), 2) + v.sps + "\x01" + be(v.pps.size(), 2) + v.pps; }
static string hvcc(const VHdr &v) { string s = string("\x1c\0\0\0\0\1", 6) + string(20, '\0') + "\x03\x03"; const string *n[] = { &v.vps, &v.sps, &v.pps }; for (int i = 0; i < 3; i++) s += string(1, (char) (0x80 | (32 + i))) + be(1, 2) + be(n[i]->size(), 2) + *n[i]; return s; }
static bool hevc;
static string ext(const std::vector<string> &nals, int nb = 4) { string s; for (auto &n : nals) s += be(n.size(), nb) + n; return s; }
static E mk(int k, uint32_t ts, int variant = 0)
{
    E e; e.k = k; e.ts = ts; string id = std::to_string(eseq++);
    static const int SR[] = { 4, 3, 7, 11 };
    switch (k) {
    case 0: case 1: {
        string sl = string(1, (char) (k ? 0x41 : 0x65)) + (k ? "i" : "k") + id;
        if (hevc) { e.cts = variant == 2 ? 80 : variant == 3 ? -40 : 0; string pre = k ? string("\x02\x01", 2) : string("\x26\x01", 2); sl = pre + (k ? "i" : "k") + id; if (variant == 1) e.nals = { string("\x46\x01\x50"), string("\x40\x01v"), string("\x42\x01s"), string("\x44\x01p"), string("\x4e\x01sei"), sl, pre + "second" + id }; else e.nals = { variant == 4 ? sl + string(300, 'x') : sl };
            e.data = string(1, (char) (k ? 0x2c : 0x1c)) + "\x01" + be((uint32_t) e.cts & 0xffffff, 3) + ext(e.nals); break; } e.cts = variant == 2 ? 80 : variant == 3 ? -40 : 0;
        if (variant == 1) e.nals = { "\x09\x10", "\x67zzz", "\x68y", "\x06sei", sl, string(1, (char) (k ? 0x41 : 0x65)) + "second" + id };
        else if (variant == 4) e.nals = { sl + string(300, 'x') };
        else e.nals = { sl };
        e.data = string(1, (char) (k ? 0x27 : 0x17)) + "\x01" + be((uint32_t) e.cts & 0xffffff, 3) + ext(e.nals); break; }
    case 2: e.raw = "a" + id + (variant == 4 ? string(300, 'y') : ""); e.data = "\xaf\x01" + e.raw; break;
    case 3: { VHdr v; v.sps = string("\x67\x42\xc0\x1e\xda\x02\x80\xf6", 8); v.pps = string("\x68\xce\x3c", 3) + (char) (1 + vhs.size() % 250); e.hv = (int) vhs.size(); if (hevc) { v.hevc = true; v.vps = "\x40\x01vv"; v.sps = "\x42\x01ss"; v.pps = string("\x44\x01", 2) + (char) (1 + vhs.size() % 250); } e.data = hevc ? hvcc(v) : avcc(v); vhs.push_back(v); break; }
    case 4: { AHdr a{ 2, SR[ahs.size() % 4], 1 + (int) ahs.size() % 2 }; int w = a.obj << 11 | a.sr << 7 | a.ch << 3; e.ha = (int) ahs.size(); e.data = string("\xaf\0", 2) + be((uint32_t) w, 2); ahs.push_back(a); break; }
    case 5: e.raw = "\xff\xfbm" + id; e.data = "\x2f" + e.raw; break;
    }
    return e;
}
static void put(Client &c, const E &e) { if (e.k == 0 || e.k == 1 || e.k == 3) c.send(video(e.ts, e.data), 6); else c.send(audio(e.ts, e.data), 4); vx::pump(); }

// the NAL units a transport stream holds for a video frame published under header v
inline std::vector<string> wantnals(const E &e, const VHdr &h)
{
    std::vector<string> w = { h.hevc ? string("\x46\x01\x50") : string("\x09\xf0") }; bool ps = false;
    for (auto &x : e.nals) {
        if (h.hevc) { int ty = x[0] >> 1 & 63; if (ty >= 32 && ty <= 35) continue; if (ty >= 16 && ty <= 23) { if (!ps) { ps = true; w.push_back(h.vps); w.push_back(h.sps); w.push_back(h.pps); } } else ps = false; w.push_back(x); }
        else { int ty = x[0] & 31; if (ty >= 7 && ty <= 9) continue; if (ty == 5 && !ps) { ps = true; w.push_back(h.sps); w.push_back(h.pps); } w.push_back(x); }
    }
    return w;
}
// "" or what is wrong with a video PES that should hold e
inline string badvideo(const Pes &p, const E &e, const VHdr &h)
{
    std::vector<string> n; if (!annexb(p.data, n)) return "no start code";
    if (n != wantnals(e, h)) { string d; for (auto &x : n) d += " '" + x.substr(0, 24) + "'"; return "should hold " + string(1, KC[e.k]) + "@" + std::to_string(e.ts) + ", holds" + d; }
    uint64_t D = 1ull << 33, dts = (uint64_t) e.ts * 90 + 63000, pts = dts + (uint64_t) ((int64_t) e.cts * 90);
    if (p.dts != dts % D || p.pts != pts % D) return string(1, KC[e.k]) + "@" + std::to_string(e.ts) + " composition " + std::to_string(e.cts) + " has pts " + std::to_string(p.pts) + " dts " + std::to_string(p.dts) + ", not " + std::to_string(pts % D) + " and " + std::to_string(dts % D);
    if (p.rai != (e.k == 0) || p.haspcr != (e.k == 0)) return "wrong random access mark";
    if (p.haspcr && ((p.dts - p.pcr) % D) > 2 * 63000) return "PCR " + std::to_string(p.pcr) + " of a frame with dts " + std::to_string(p.dts);
    return "";
}
// the same for an audio PES that holds one frame
inline string badaudio(const Pes &p, const E &e, const AHdr *h)
{
    if (e.k == 5) { if (p.data != e.raw) return "MP3 frame differs"; }
    else { std::vector<Adts> a; if (!adts(p.data, a) || a.size() != 1) return "broken ADTS framing"; if (a[0].data != e.raw || a[0].obj != h->obj || a[0].sr != h->sr || a[0].ch != h->ch) return "should hold A@" + std::to_string(e.ts) + " " + e.raw.substr(0, 24) + ", is '" + a[0].data.substr(0, 24) + "' " + std::to_string(a[0].obj) + " " + std::to_string(a[0].sr) + " " + std::to_string(a[0].ch); }
    if (p.pts != (((uint64_t) e.ts * 90 + 63000) & ((1ull << 33) - 1))) return "A@" + std::to_string(e.ts) + " has pts " + std::to_string(p.pts);
    return "";
}
}
