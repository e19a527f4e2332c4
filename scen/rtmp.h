// An independent RTMP peer (chunk streams, AMF0, commands) used by scenarios.
#pragma once
#include "../engine/vx.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace rt {
using std::string;

inline string be(uint64_t v, int n) { string s; for (int i = n - 1; i >= 0; i--) s += (char) (v >> (8 * i)); return s; }
inline string le32(uint32_t v) { string s; for (int i = 0; i < 4; i++) s += (char) (v >> (8 * i)); return s; }
inline uint64_t rbe(const string &s, size_t o, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (unsigned char) s[o + i]; return v; }
inline uint32_t rle32(const string &s, size_t o) { return (unsigned char) s[o] | (unsigned char) s[o + 1] << 8 | (unsigned char) s[o + 2] << 16 | (uint32_t) (unsigned char) s[o + 3] << 24; }
inline string hex(const string &s, size_t max = 48) { string o; char b[4]; for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, sizeof b, "%02x", (unsigned char) s[i]); o += b; } if (s.size() > max) o += "..."; return o; }

// ------------------------------------------------------------------ AMF0
struct Val {
    enum T { NUM, BOOL, STR, OBJ, NUL, UNDEF, ECMA, ARR, DATE, LONG, BAD } t = NUL;
    double num = 0; bool b = false; string s;
    std::vector<std::pair<string, Val>> f; // OBJ/ECMA fields, ARR values
    const Val *get(const string &k) const { for (auto &x : f) if (x.first == k) return &x.second; return nullptr; }
    bool operator==(const Val &o) const {
        if (t != o.t) return false;
        switch (t) { case NUM: return num == o.num; case BOOL: return b == o.b; case STR: case LONG: return s == o.s;
        case OBJ: case ECMA: case ARR: return f == o.f; default: return true; } }
};
inline Val N(double d) { Val v; v.t = Val::NUM; v.num = d; return v; }
inline Val B(bool d) { Val v; v.t = Val::BOOL; v.b = d; return v; }
inline Val Str(const string &d) { Val v; v.t = Val::STR; v.s = d; return v; }
inline Val Null() { return Val(); }
inline Val Obj(std::vector<std::pair<string, Val>> f) { Val v; v.t = Val::OBJ; v.f = std::move(f); return v; }
inline Val Ecma(std::vector<std::pair<string, Val>> f) { Val v; v.t = Val::ECMA; v.f = std::move(f); return v; }
inline string enc(const Val &v)
{
    string o;
    switch (v.t) {
    case Val::NUM: { uint64_t u; memcpy(&u, &v.num, 8); return string("\0", 1) + be(u, 8); }
    case Val::BOOL: return string("\1", 1) + (char) v.b;
    case Val::STR: return string("\2", 1) + be(v.s.size(), 2) + v.s;
    case Val::LONG: return string("\x0c", 1) + be(v.s.size(), 4) + v.s;
    case Val::NUL: return string("\5", 1);
    case Val::UNDEF: return string("\6", 1);
    case Val::ECMA: o = string("\x08", 1) + be(v.f.size(), 4); goto fields;
    case Val::OBJ: o = string("\3", 1);
    fields:
        for (auto &x : v.f) o += be(x.first.size(), 2) + x.first + enc(x.second);
        return o + string("\0\0\x09", 3);
    case Val::ARR: o = string("\x0a", 1) + be(v.f.size(), 4); for (auto &x : v.f) o += enc(x.second); return o;
    case Val::DATE: return string("\x0b", 1) + be(0, 8) + be(0, 2);
    default: return o;
    }
}
inline bool dec(const string &s, size_t &p, Val &v, int depth = 0)
{
    if (p >= s.size() || depth > 32) return false;
    unsigned char t = s[p++];
    auto need = [&](size_t n) { return p + n <= s.size(); };
    switch (t) {
    case 0: { if (!need(8)) return false; uint64_t u = rbe(s, p, 8); memcpy(&v.num, &u, 8); p += 8; v.t = Val::NUM; return true; }
    case 1: if (!need(1)) return false; v.t = Val::BOOL; v.b = s[p++] != 0; return true;
    case 2: { if (!need(2)) return false; size_t n = rbe(s, p, 2); p += 2; if (!need(n)) return false; v.t = Val::STR; v.s = s.substr(p, n); p += n; return true; }
    case 12: { if (!need(4)) return false; size_t n = rbe(s, p, 4); p += 4; if (!need(n)) return false; v.t = Val::LONG; v.s = s.substr(p, n); p += n; return true; }
    case 5: v.t = Val::NUL; return true;
    case 6: v.t = Val::UNDEF; return true;
    case 8: if (!need(4)) return false; p += 4; v.t = Val::ECMA; goto fields;
    case 3: v.t = Val::OBJ;
    fields:
        for (;;) {
            if (!need(2)) return false;
            size_t n = rbe(s, p, 2); p += 2;
            if (n == 0 && p < s.size() && s[p] == 9) { p++; return true; }
            if (!need(n)) return false;
            string k = s.substr(p, n); p += n;
            Val x; if (!dec(s, p, x, depth + 1)) return false;
            v.f.push_back({ k, x });
        }
    case 10: { if (!need(4)) return false; size_t n = rbe(s, p, 4); p += 4; v.t = Val::ARR; for (size_t i = 0; i < n; i++) { Val x; if (!dec(s, p, x, depth + 1)) return false; v.f.push_back({ "", x }); } return true; }
    case 11: if (!need(10)) return false; p += 10; v.t = Val::DATE; return true;
    default: return false;
    }
}
inline bool dec_all(const string &s, std::vector<Val> &out) { size_t p = 0; while (p < s.size()) { Val v; if (!dec(s, p, v)) return false; out.push_back(v); } return true; }
inline string vstr(const Val &v)
{
    char b[64];
    switch (v.t) {
    case Val::NUM: snprintf(b, sizeof b, "%g", v.num); return b;
    case Val::BOOL: return v.b ? "true" : "false";
    case Val::STR: case Val::LONG: return "'" + v.s + "'";
    case Val::OBJ: case Val::ECMA: case Val::ARR: { string o = "{"; for (auto &x : v.f) o += x.first + ":" + vstr(x.second) + " "; return o + "}"; }
    default: return "null";
    }
}

// ------------------------------------------------------------------ chunks
struct Msg {
    int type = 0; uint32_t ts = 0; uint32_t sid = 0; string data; int csid = 0;
    bool operator==(const Msg &o) const { return type == o.type && ts == o.ts && sid == o.sid && data == o.data; }
};
inline string mstr(const Msg &m) { char b[100]; snprintf(b, sizeof b, "type=%d ts=%u sid=%u len=%zu data=", m.type, m.ts, m.sid, m.data.size()); return b + hex(m.data, 12); }

inline string basic(int fmt, int csid)
{
    string h;
    if (csid < 64) h += (char) (fmt << 6 | csid);
    else if (csid < 320) { h += (char) (fmt << 6); h += (char) (csid - 64); }
    else { h += (char) (fmt << 6 | 1); h += (char) ((csid - 64) & 255); h += (char) ((csid - 64) >> 8); }
    return h;
}
// Writes messages as chunks. State per chunk stream, so compressed headers are legal.
struct ChunkWriter {
    struct St { bool any = false; uint32_t ts = 0, len = 0, sid = 0, delta = 0; int type = 0; bool ext = false; };
    std::map<int, St> st;
    size_t chunk = 128;
    bool ext_in_type3 = true;  // repeat the extended timestamp in type-3 headers (the common practice)
    // largest compression allowed for this message: 0..3
    int max_fmt(const Msg &m, int csid)
    {
        St &s = st[csid];
        if (!s.any || m.sid != s.sid || m.ts < s.ts) return 0;
        if (m.data.size() != s.len || m.type != s.type) return 1;
        if (m.ts - s.ts != s.delta) return 2;
        return 3;
    }
    // returns the chunks of the message, one string per chunk
    std::vector<string> chunks(const Msg &m, int csid, int fmt)
    {
        St &s = st[csid];
        uint32_t field = fmt == 0 ? m.ts : fmt == 3 ? s.delta : m.ts - s.ts;
        bool ext = fmt == 3 ? s.ext : field >= 0xffffff;
        uint32_t extv = fmt == 3 ? s.delta : field;
        string h = basic(fmt, csid);
        if (fmt <= 2) h += be(ext ? 0xffffff : field, 3);
        if (fmt <= 1) { h += be(m.data.size(), 3); h += (char) m.type; }
        if (fmt == 0) h += le32(m.sid);
        if (ext && (fmt <= 2 || ext_in_type3)) h += be(extv, 4);
        s.delta = fmt == 0 ? (s.any ? s.delta : 0) : field;
        if (fmt == 0) s.delta = field; // per spec type 3 after type 0 repeats the timestamp as delta
        s.ext = ext; s.any = true; s.ts = m.ts; s.len = (uint32_t) m.data.size(); s.sid = m.sid; s.type = m.type;
        std::vector<string> out;
        size_t p = 0;
        do {
            size_t k = std::min(chunk, m.data.size() - p);
            if (p) { h = basic(3, csid); if (ext && ext_in_type3) h += be(extv, 4); }
            out.push_back(h + m.data.substr(p, k));
            p += k;
        } while (p < m.data.size());
        return out;
    }
    string msg(const Msg &m, int csid, int fmt = 0) { string o; for (auto &c : chunks(m, csid, fmt)) o += c; return o; }
};
// Reads a chunk stream strictly.
struct ChunkReader {
    struct St { bool any = false; uint32_t ts = 0, delta = 0, len = 0, sid = 0; int type = 0; bool ext = false; string part; uint32_t extv = 0; };
    std::map<int, St> st;
    size_t chunk = 128;
    bool ext3 = true;
    string buf;
    uint64_t consumed = 0;
    std::vector<Msg> out;
    string err;
    void feed(const string &b)
    {
        buf += b;
        while (err.empty() && one()) { }
    }
    bool one()
    {
        size_t p = 0; if (buf.empty()) return false;
        int fmt = (unsigned char) buf[0] >> 6, cs = buf[0] & 63; p = 1;
        if (cs == 0) { if (buf.size() < 2) return false; cs = 64 + (unsigned char) buf[1]; p = 2; }
        else if (cs == 1) { if (buf.size() < 3) return false; cs = 64 + (unsigned char) buf[1] + 256 * (unsigned char) buf[2]; p = 3; }
        static const size_t hs[] = { 11, 7, 3, 0 };
        if (buf.size() < p + hs[fmt]) return false;
        St s = st[cs];
        uint32_t field = 0; bool ext = s.ext, cont = !s.part.empty();
        if (cont && fmt != 3) { err = "new message header inside a message on chunk stream " + std::to_string(cs); return false; }
        if (fmt != 0 && !s.any) { err = "compressed header on unused chunk stream " + std::to_string(cs); return false; }
        if (fmt <= 2) { field = (uint32_t) rbe(buf, p, 3); ext = field == 0xffffff; }
        if (fmt <= 1) { s.len = (uint32_t) rbe(buf, p + 3, 3); s.type = (unsigned char) buf[p + 6]; }
        if (fmt == 0) s.sid = rle32(buf, p + 7);
        p += hs[fmt];
        if (ext && (fmt <= 2 || ext3)) {
            if (buf.size() < p + 4) return false;
            uint32_t e = (uint32_t) rbe(buf, p, 4); p += 4;
            if (fmt <= 2) { field = e; }
            else if (e != s.extv) { err = "continuation extended timestamp differs"; return false; }
            s.extv = e;
        }
        size_t k = std::min(chunk, (size_t) s.len - s.part.size());
        if (buf.size() < p + k) return false;
        if (!cont) {
            if (fmt == 0) { s.ts = field; s.delta = field; }
            else if (fmt <= 2) { s.delta = field; s.ts += field; }
            else s.ts += s.delta;
        }
        s.ext = ext; s.any = true;
        s.part += buf.substr(p, k);
        buf.erase(0, p + k); consumed += p + k;
        if (s.part.size() == s.len) {
            Msg m; m.type = s.type; m.ts = s.ts; m.sid = s.sid; m.data.swap(s.part); m.csid = cs;
            s.part.clear();
            if (m.type == 1 && m.data.size() == 4) { chunk = (size_t) rbe(m.data, 0, 4); if (chunk < 1) err = "chunk size 0"; }
            out.push_back(m);
        }
        st[cs] = s;
        return true;
    }
};

// ------------------------------------------------------------------ client
struct Client {
    vx::Conn c;
    ChunkWriter w; ChunkReader r;
    string raw; bool hs_done = false; int hs_stage = 0;
    string s1;
    size_t read_pos = 0;     // messages already examined
    double txn = 1;
    string name;
    void open(const string &where = "1935", const string &ip = "10.0.0.1") { c = vx::connect_to(where, ip); }
    void collect()
    {
        string t = c->take();
        if (!hs_done) {
            raw += t;
            if (raw.size() >= 3073) { hs_done = true; s1 = raw.substr(1, 1536); string rest = raw.substr(3073); raw.resize(3073); r.feed(rest); }
        } else r.feed(t);
        if (!r.err.empty()) vx::fail("%s: invalid chunk stream from the server: %s", name.c_str(), r.err.c_str());
    }
    static string c0c1() { string s(1, '\3'); s += be(0, 4) + be(0, 4); for (int i = 0; i < 1528; i++) s += (char) (i * 7 + 3); return s; }
    static string c2(const string &s1) { return s1; }
    bool handshake()
    {
        c->send(c0c1()); vx::pump(); collect();
        if (!hs_done) return false;
        c->send(c2(s1)); vx::pump(); collect();
        return !c->closed;
    }
    void send(const Msg &m, int csid = 3, int fmt = 0) { c->send(w.msg(m, csid, fmt)); }
    void cmd(const string &nm, std::vector<Val> args, uint32_t sid = 0, int csid = 3)
    {
        Msg m; m.type = 20; m.sid = sid; m.data = enc(Str(nm)) + enc(N(txn++));
        for (auto &a : args) m.data += enc(a);
        send(m, csid);
    }
    string cmd_bytes(const string &nm, std::vector<Val> args, uint32_t sid = 0, int csid = 3)
    {
        Msg m; m.type = 20; m.sid = sid; m.data = enc(Str(nm)) + enc(N(txn++));
        for (auto &a : args) m.data += enc(a);
        return w.msg(m, csid, 0);
    }
    Val connect_obj(const string &app, const string &tc = "") { return Obj({ { "app", Str(app) }, { "flashVer", Str("FMLE/3.0") }, { "tcUrl", Str(tc.empty() ? "rtmp://live.test/" + app : tc) } }); }
    void set_chunk(size_t n) { Msg m; m.type = 1; m.data = be(n, 4); send(m, 2); w.chunk = n; }
    // messages since last call
    std::vector<Msg> fresh() { collect(); std::vector<Msg> v(r.out.begin() + read_pos, r.out.end()); read_pos = r.out.size(); return v; }
    // search for a command / onStatus among messages not yet consumed by fresh()
    static bool is_cmd(const Msg &m, const string &nm, std::vector<Val> *vals = nullptr)
    {
        if (m.type != 20) return false;
        std::vector<Val> v; if (!dec_all(m.data, v) || v.empty()) return false;
        if (v[0].t != Val::STR || v[0].s != nm) return false;
        if (vals) *vals = v;
        return true;
    }
    static string status_code(const Msg &m)
    {
        std::vector<Val> v;
        if (!is_cmd(m, "onStatus", &v) && !is_cmd(m, "_error", &v) && !is_cmd(m, "_result", &v)) return "";
        for (auto &x : v) if (x.t == Val::OBJ) if (auto *c = x.get("code")) return c->s;
        return "";
    }
    bool saw_code(const string &code) { collect(); for (auto &m : r.out) if (status_code(m) == code) return true; return false; }
    int count_code(const string &code) { collect(); int n = 0; for (auto &m : r.out) if (status_code(m) == code) n++; return n; }
    bool saw_cmd(const string &nm) { collect(); for (auto &m : r.out) if (is_cmd(m, nm)) return true; return false; }
    bool connect(const string &app = "live", const string &tc = "")
    {
        cmd("connect", { connect_obj(app, tc) }); vx::pump(); collect();
        return saw_code("NetConnection.Connect.Success");
    }
    bool create_stream() { size_t n0 = r.out.size(); cmd("createStream", { Null() }); vx::pump(); collect(); for (size_t i = n0; i < r.out.size(); i++) if (is_cmd(r.out[i], "_result")) return true; return false; }
    void publish(const string &nm, const string &type = "live") { cmd("publish", { Null(), Str(nm), Str(type) }, 1, 4); }
    void play(const string &nm) { cmd("play", { Null(), Str(nm) }, 1, 4); }
    bool up(const string &app = "live", const string &where = "1935", const string &ip = "10.0.0.1", const string &tc = "")
    {
        open(where, ip);
        return handshake() && connect(app, tc) && create_stream();
    }
    bool publisher(const string &nm, const string &app = "live", const string &where = "1935", const string &ip = "10.0.0.1")
    {
        if (!up(app, where, ip)) return false;
        publish(nm); vx::pump(); return saw_code("NetStream.Publish.Start");
    }
    bool player(const string &nm, const string &app = "live", const string &where = "1935", const string &ip = "10.0.0.1")
    {
        if (!up(app, where, ip)) return false;
        play(nm); vx::pump(); return saw_code("NetStream.Play.Start");
    }
    // audio/video/metadata received
    std::vector<Msg> av() { collect(); std::vector<Msg> v; for (auto &m : r.out) if (m.type == 8 || m.type == 9) v.push_back(m); return v; }
};

// ------------------------------------------------------------------ media
// H.264: sequence header, keyframe, interframe with a payload that identifies the frame
inline string avc_seq() { return string("\x17\x00\x00\x00\x00", 5) + string("\x01\x42\xc0\x1e\xff\xe1\x00\x08\x67\x42\xc0\x1e\xda\x02\x80\xf6\x01\x00\x04\x68\xce\x3c\x80", 23); }
inline string nal(int type, const string &body) { string n = string(1, (char) (0x60 | type)) + body; return be(n.size(), 4) + n; }
inline string avc_key(const string &id, int cts = 0) { return string("\x17\x01", 2) + be(cts & 0xffffff, 3) + nal(5, id); }
inline string avc_inter(const string &id, int cts = 0) { return string("\x27\x01", 2) + be(cts & 0xffffff, 3) + nal(1, id); }
inline string aac_seq() { return string("\xaf\x00\x12\x10", 4); }
inline string aac_raw(const string &id) { return string("\xaf\x01", 2) + id; }
inline Msg video(uint32_t ts, const string &d, uint32_t sid = 1) { Msg m; m.type = 9; m.ts = ts; m.sid = sid; m.data = d; return m; }
inline Msg audio(uint32_t ts, const string &d, uint32_t sid = 1) { Msg m; m.type = 8; m.ts = ts; m.sid = sid; m.data = d; return m; }
inline Msg meta(uint32_t ts = 0, uint32_t sid = 1)
{
    Msg m; m.type = 18; m.ts = ts; m.sid = sid;
    m.data = enc(Str("@setDataFrame")) + enc(Str("onMetaData")) + enc(Obj({ { "width", N(640) }, { "height", N(360) }, { "videocodecid", N(7) }, { "audiocodecid", N(10) } }));
    return m;
}
}
