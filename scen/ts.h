// MPEG transport stream decoder, written from ISO/IEC 13818-1.
#pragma once
#include "rtmp.h"
#include <map>
namespace rt {
struct Pes { int pid = 0, sid = 0; uint64_t pts = 0, dts = 0; bool rai = false, haspcr = false; uint64_t pcr = 0; string data; size_t want = 0; size_t at = 0; };
struct TsFile { bool ok = true; string err; int vtype = 0, atype = 0; bool psi = false; std::vector<Pes> pes; std::map<int, int> first, last; std::map<int, int> jumps; };
static bool ts_reserved = true;             // reserved bits of a PCR must be set
inline uint32_t crc_mpeg(const string &b) { uint32_t c = 0xffffffff; for (unsigned char x : b) { c ^= (uint32_t) x << 24; for (int i = 0; i < 8; i++) c = c & 0x80000000 ? c << 1 ^ 0x04c11db7 : c << 1; } return c; }
// cc: continuity counters carried over from what went before (-1 or absent: any)
inline TsFile ts_parse(const string &b, std::map<int, int> *cc = nullptr, bool strict_cc = true)
{
    TsFile f; std::map<int, int> own; if (!cc) cc = &own;
    std::map<int, long> cur; bool pat = false; int pmtpid = -1, vpid = -1, apid = -1;
    auto bad = [&](const string &e) { if (f.ok) { f.ok = false; f.err = e; } };
    if (b.size() % 188) { bad(std::to_string(b.size()) + " bytes are not a whole number of packets"); }
    auto u = [&](size_t i) { return (unsigned char) b[i]; };
    auto section = [&](size_t p, size_t e, int table, string &s) {
        p += 1 + u(p); if (p + 3 > e || u(p) != table) { bad("bad table"); return false; }
        size_t n = (u(p + 1) & 15) << 8 | u(p + 2); if (p + 3 + n > e || n < 13 - 4) { bad("bad section length"); return false; }
        s = b.substr(p, 3 + n); if (crc_mpeg(s)) { bad("bad section CRC"); return false; } return true; };
    for (size_t p = 0; f.ok && p + 188 <= b.size(); p += 188) {
        if (u(p) != 0x47) { bad("no sync byte in packet " + std::to_string(p / 188)); break; }
        if (u(p + 1) & 0x80) { bad("transport error"); break; }
        bool pusi = u(p + 1) & 0x40; int pid = (u(p + 1) & 31) << 8 | u(p + 2), afc = u(p + 3) >> 4 & 3, c = u(p + 3) & 15; size_t q = p + 4, e = p + 188;
        if (u(p + 3) >> 6) { bad("scrambled"); break; }
        bool rai = false, haspcr = false; uint64_t pcr = 0;
        if (afc & 2) {
            size_t n = u(q); if (q + 1 + n > e || (afc == 2 && n != 183) || (afc == 3 && n > 182)) { bad("bad adaptation field"); break; }
            if (n) { int fl = u(q + 1); rai = fl & 0x40; size_t r = q + 2; if (fl & 0x10) { haspcr = true; if (n < 7) { bad("bad adaptation field"); break; } pcr = rbe(b, r, 4) << 1 | u(r + 4) >> 7; if ((ts_reserved && (u(r + 4) & 0x7e) != 0x7e) || (u(r + 4) & 1) || u(r + 5)) { bad("bad PCR"); break; } r += 6; }
                if (fl & 0x2f) { bad("unexpected adaptation flags"); break; } for (; r < q + 1 + n; r++) if (u(r) != 0xff) { bad("bad stuffing"); break; } }
            q += 1 + n;
        }
        if (!(afc & 1)) continue;
        if (pid == 0) { string s; if (!pusi || !section(q, e, 0, s)) { bad("bad PAT"); break; } if (s.size() != 16) { bad("PAT of " + std::to_string(s.size())); break; } pmtpid = (int) rbe(s, 10, 2) & 0x1fff; pat = true; continue; }
        if (pid == pmtpid) {
            string s; if (!pusi || !section(q, e, 2, s)) { bad("bad PMT"); break; }
            vpid = apid = -1; f.vtype = f.atype = 0;
            for (size_t i = 12 + (rbe(s, 10, 2) & 0xfff); i + 4 < s.size(); ) { int t = (unsigned char) s[i], id = (int) rbe(s, i + 1, 2) & 0x1fff; size_t n = rbe(s, i + 3, 2) & 0xfff; if (i + 5 + n + 4 > s.size()) { bad("bad PMT"); break; } if (t == 0x1b || t == 0x24) { vpid = id; f.vtype = t; } else if (t == 0x0f || t == 3 || t == 4) { apid = id; f.atype = t; } else bad("stream type " + std::to_string(t)); i += 5 + n; }
            f.psi = true; continue;
        }
        if (!pat || !f.psi) { bad("media before the tables"); break; }
        if (pid != vpid && pid != apid) { bad("packet of PID " + std::to_string(pid) + " that is not in the PMT"); break; }
        if (!f.first.count(pid)) f.first[pid] = c;
        if (cc->count(pid) && (*cc)[pid] >= 0 && (((*cc)[pid] + 1) & 15) != c) { if (strict_cc) { bad("continuity counter " + std::to_string(c) + " after " + std::to_string((*cc)[pid]) + " on PID " + std::to_string(pid)); break; } f.jumps[pid]++; }
        (*cc)[pid] = c; f.last[pid] = c;
        if (pusi) {
            if (cur.count(pid)) { auto &o = f.pes[(size_t) cur[pid]]; if (o.want && o.data.size() != o.want && strict_cc) { bad("PES of " + std::to_string(o.data.size()) + " bytes, header says " + std::to_string(o.want)); break; } }
            if (q + 9 > e || rbe(b, q, 3) != 1) { bad("bad PES start"); break; }
            Pes x; x.pid = pid; x.sid = u(q + 3); x.rai = rai; x.haspcr = haspcr; x.pcr = pcr; x.at = p / 188; size_t len = rbe(b, q + 4, 2); int fl = u(q + 7); size_t hl = u(q + 8);
            if ((u(q + 6) & 0xc0) != 0x80 || (pid == vpid ? (x.sid & 0xf0) != 0xe0 : (x.sid & 0xe0) != 0xc0)) { bad("bad PES header"); break; }
            if (hl != (size_t) ((fl & 0x80 ? 5 : 0) + (fl & 0x40 ? 5 : 0)) || !(fl & 0x80) || (fl & 0x3f) || q + 9 + hl > e) { bad("bad PES flags"); break; }
            auto ts = [&](size_t r, int pre) { if (u(r) >> 4 != pre || !(u(r) & 1) || !(u(r + 2) & 1) || !(u(r + 4) & 1)) bad("bad time stamp marker"); return (uint64_t) (u(r) >> 1 & 7) << 30 | rbe(b, r + 1, 2) >> 1 << 15 | rbe(b, r + 3, 2) >> 1; };
            x.pts = ts(q + 9, fl & 0x40 ? 3 : 2); x.dts = fl & 0x40 ? ts(q + 14, 1) : x.pts;
            if (len) { if (len < 3 + hl) { bad("bad PES length"); break; } x.want = len - 3 - hl; } else if (pid != vpid) { bad("audio PES without a length"); break; }
            q += 9 + hl; cur[pid] = (long) f.pes.size(); f.pes.push_back(x);
        } else if (rai || haspcr) { bad("random access in the middle of a frame"); break; }
        if (!cur.count(pid)) { if (strict_cc) { bad("continuation without a start"); break; } continue; }
        f.pes[(size_t) cur[pid]].data.append(b, q, e - q);
    }
    if (f.ok && strict_cc) for (auto &c : cur) { auto &o = f.pes[(size_t) c.second]; if (o.want && o.data.size() != o.want) bad("last PES has " + std::to_string(o.data.size()) + " bytes, header says " + std::to_string(o.want)); }
    if (f.ok && !f.psi) bad("no tables");
    return f;
}
inline bool annexb(const string &d, std::vector<string> &out)
{
    size_t p = 0; if (d.compare(0, 4, string("\0\0\0\1", 4))) return false;
    p = 4;
    for (;;) { size_t n = d.find(string("\0\0\1", 3), p); if (n == string::npos) { out.push_back(d.substr(p)); return true; } size_t e = n; if (e > p && d[e - 1] == 0) e--; out.push_back(d.substr(p, e - p)); p = n + 3; }
}
struct Adts { int obj, sr, ch; string data; };
inline bool adts(const string &d, std::vector<Adts> &out)
{
    for (size_t p = 0; p < d.size(); ) {
        if (p + 7 > d.size() || (unsigned char) d[p] != 0xff || (unsigned char) d[p + 1] != 0xf1) return false;
        auto u = [&](size_t i) { return (unsigned) (unsigned char) d[p + i]; };
        size_t n = (u(3) & 3) << 11 | u(4) << 3 | u(5) >> 5; if (n < 7 || p + n > d.size() || (u(6) & 3)) return false;
        out.push_back({ (int) (u(2) >> 6) + 1, (int) (u(2) >> 2 & 15), (int) ((u(2) & 1) << 2 | u(3) >> 6), d.substr(p + 7, n - 7) }); p += n;
    }
    return true;
}
}
