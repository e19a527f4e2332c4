// P03: the RTMP handshake, on both sides, and the PROXY protocol header before it.
#include "rtmp.h"
#include "notify.h"
#include <memory>
using namespace rt;
// ---- HMAC-SHA256
static string sha256(const string &in)
{
    static uint32_t k[64]; static bool init; auto rr = [](uint32_t x, int n) { return x >> n | x << (32 - n); };
    static const uint32_t h0[] = { 0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19 };
    if (!init) { init = true; int n = 0; for (int p = 2; n < 64; p++) { bool pr = true; for (int d = 2; d * d <= p; d++) if (p % d == 0) pr = false; if (!pr) continue; long double c = 1; { long double lo = 1, hi = 8; for (int i = 0; i < 200; i++) { c = (lo + hi) / 2; (c * c * c < p ? lo : hi) = c; } } k[n++] = (uint32_t) ((c - (long) c) * 4294967296.0L); } }
    uint32_t h[8]; memcpy(h, h0, 32); string m = in; m += '\x80'; while (m.size() % 64 != 56) m += '\0'; m += be(0, 4) + be((uint32_t) in.size() * 8, 4);
    for (size_t o = 0; o < m.size(); o += 64) { uint32_t w[64], v[8]; for (int i = 0; i < 16; i++) w[i] = (uint32_t) rbe(m, o + 4 * (size_t) i, 4);
        for (int i = 16; i < 64; i++) w[i] = w[i - 16] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 7] + (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ w[i - 2] >> 10);
        memcpy(v, h, 32); for (int i = 0; i < 64; i++) { uint32_t t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i], t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2])); for (int j = 7; j; j--) v[j] = v[j - 1]; v[4] += t1; v[0] = t1 + t2; }
        for (int i = 0; i < 8; i++) h[i] += v[i]; }
    string r; for (auto x : h) r += be(x, 4); return r;
}
static string hmac(string key, const string &m) { if (key.size() > 64) key = sha256(key); key.resize(64); string i = key, o = key; for (auto &c : i) c = (char) (c ^ 0x36); for (auto &c : o) c = (char) (c ^ 0x5c); return sha256(o + sha256(i + m)); }
static const string GS = "Genuine Adobe Flash Media Server 001", GC = "Genuine Adobe Flash Player 001";
static const string GX("\xf0\xee\xc2\x4a\x80\x68\xbe\xe8\x2e\x00\xd0\xd1\x02\x9e\x7e\x57\x6e\xec\x5d\x2d\x29\x80\x6f\xab\x93\xb8\xe6\x36\xcf\xeb\x31\xae", 32);
static string body(int seed) { string s; uint32_t x = 12345u * (uint32_t) (seed + 1) + 7; for (int i = 0; i < 1536; i++) { x = x * 1664525 + 1013904223; s += (char) (x >> 24); } return s; }
static size_t dpos(const string &c1, int scheme) { size_t b = scheme ? 772 : 8, s = 0; for (int i = 0; i < 4; i++) s += (uint8_t) c1[b + (size_t) i]; return s % 728 + b + 4; }
static string cut(const string &s, size_t p) { return s.substr(0, p) + s.substr(p + 32); }
// kind: 0 old (version 0), 1, 2 digest in scheme 0, 1 at offset off, 3 version set but no digest, 4 version 0 with a digest
static string hello(int kind, int seed, int off, const string &key)
{
    string c = body(seed); c.replace(0, 4, be(77, 4)); c.replace(4, 4, kind == 0 || kind == 4 ? string(4, '\0') : string("\x80\0\7\2", 4));
    if (kind == 1 || kind == 2 || kind == 4) { int sc = kind == 2; size_t b = sc ? 772 : 8; int v = off; if (seed % 2 && v + 728 <= 1020) v += 728; for (int i = 0; i < 4; i++) { int x = std::min(v, 255); c[b + (size_t) i] = (char) x; v -= x; } size_t p = dpos(c, sc); if (sc == 1 && dpos(c, 0) + 32 > 776 - 8 && false) p = 0; c.replace(p, 32, hmac(key, cut(c, p))); }
    return c;
}
static bool valid(const string &c1, const string &key, string *dg) { for (int sc = 1; sc >= 0; sc--) { size_t p = dpos(c1, sc); if (hmac(key, cut(c1, p)) == c1.substr(p, 32)) { *dg = c1.substr(p, 32); return true; } } return false; }
// what a server must have answered to C0 C1
static void judge(const string &c1, const string &raw, const char *w)
{
    if (raw.size() < 3073) vx::fail("%s: %zu bytes of handshake response", w, raw.size());
    if (raw[0] != 3) vx::fail("%s: S0 is %d", w, raw[0]); string s1 = raw.substr(1, 1536), s2 = raw.substr(1537, 1536), dg;
    if (rbe(c1, 4, 4) == 0 || !valid(c1, GC, &dg)) { if (s2 != c1) { size_t i = 0; while (s2[i] == c1[i]) i++; vx::fail("%s: S2 differs from C1 at %zu", w, i); } }
    else { if (hmac(hmac(GS + GX, dg), s2.substr(0, 1504)) != s2.substr(1504)) vx::fail("%s: S2 does not hold the digest of C1's digest", w); if (s2 == c1) vx::fail("%s: S2 is C1", w); string d2; if (!valid(s1, GS, &d2)) vx::fail("%s: S1 holds no digest", w); }
}
struct Raw { vx::Conn c; string in; void open(const string &w = "1935") { c = vx::connect_to(w, "10.0.0.1"); } void get() { vx::pump(); in += c->take(); } };
// the answer to connect
static bool connected(const string &raw) { return raw.find("NetConnection.Connect.Success") != string::npos; }
static string connect_bytes(const string &app = "live") { Client k; return k.cmd_bytes("connect", { k.connect_obj(app) }); }
// ---- digests
static int digest_roots() { return 5 * 14; }
static void digest_run(int root)
{
    int kind = root % 5, part = root / 5; if (kind % 3 == 0 && part) return;
    for (int off = part * 52; off < (kind % 3 == 0 ? 20 : part * 52 + 52); off++) for (int fl = 0; fl < vx::tier_pick(12, 34); fl++) {
        string c1 = hello(kind, off * 2 + (fl & 1), off, GC); if (kind % 3 && fl > 1) { size_t p = dpos(c1, kind == 2), b = fl == 2 ? (size_t) off % 32 : (size_t) fl - 2; if (off % 5 == 4) { p = 1535 - b; if (p >= dpos(c1, kind == 2) && p < dpos(c1, kind == 2) + 32) p = 8; c1[p] = (char) (c1[p] ^ 1); } else c1[p + b] = (char) (c1[p + b] ^ (1 << off % 8)); }
        string w = "kind " + std::to_string(kind) + " offset " + std::to_string(off) + " flip " + std::to_string(fl); Raw r; r.open(); r.c->send("\3" + c1); r.get(); judge(c1, r.in, w.c_str());
        if (r.in.size() != 3073) vx::fail("%s: %zu bytes sent before C2", w.c_str(), r.in.size()); string s1 = r.in.substr(1, 1536); r.c->send((kind == 3 ? body(off) : s1) + connect_bytes()); r.get(); if (!connected(r.in)) vx::fail("%s: connect was not answered", w.c_str());
        r.c->fin(); vx::pump(); if (!r.c->closed) vx::fail("%s: not closed", w.c_str()); vx::count(3, 3, 1);
    }
    vx::note("kind %d offsets %d-%d", kind, part * 52, part * 52 + 51);
}
// ---- what arrives in which pieces, what the socket takes, when the client stops
static int seg_roots() { return 2 * 6 * 8; }
static void seg_run(int root)
{
    int kind = root % 2 * 2, act = root / 2 % 6, part = root / 12; string c1 = hello(kind, 5, 300, GC), all = "\3" + c1 + body(9) + connect_bytes(); size_t n = all.size(), step = 1;
    for (size_t p = 1 + (size_t) part * n / 8; p < n && p <= ((size_t) part + 1) * n / 8; p += (p > 1530 && p < 1545) || (p > 3065 && p < 3080) ? 1 : step) {
        string w = "kind " + std::to_string(kind) + " act " + std::to_string(act) + " at " + std::to_string(p); Raw r; r.open(); bool hs = p >= 3073;
        if (act <= 2) { r.c->send(all.substr(0, p)); if (act) r.get(); if (r.c->closed) vx::fail("%s: closed early", w.c_str()); if (act == 1 && (r.in.size() >= 3073) != (p >= 1537)) vx::fail("%s: %zu bytes answered", w.c_str(), r.in.size()); if (act == 2) { vx::advance(9999); r.get(); if (r.c->closed) vx::fail("%s: closed before the timeout", w.c_str()); r.c->send(all.substr(p, 1)); r.get(); r.c->send(all.substr(p + 1)); } else r.c->send(all.substr(p)); r.get(); judge(c1, r.in, w.c_str()); if (!connected(r.in)) vx::fail("%s: connect was not answered", w.c_str()); }
        else if (act == 3) { r.c->send(all.substr(0, p)); r.get(); if (p % 2) r.c->fin(); else r.c->reset(); vx::pump(); if (!r.c->closed) vx::fail("%s: the connection stays open after the client left", w.c_str()); }
        else if (act == 4) { r.c->send(all.substr(0, p)); r.get(); if (!hs) { vx::advance(9998); vx::pump(); if (r.c->closed) vx::fail("%s: closed before the timeout", w.c_str()); vx::advance(2); vx::pump(); if (!r.c->closed) vx::fail("%s: still open after the timeout", w.c_str()); } }
        else { r.c->win = (long) p; r.c->send(all); r.get(); if (r.in.size() > p) vx::fail("%s: sent more than the socket takes", w.c_str()); if (p < 3073 && p % 4 == 3) { vx::advance(10001); vx::pump(); if (!r.c->closed) vx::fail("%s: still open after the send timeout", w.c_str()); } else { if (p % 4 == 1) { r.c->open_window(1); r.get(); vx::advance(9000); } r.c->open_window(-1); r.c->win = -1; r.get(); judge(c1, r.in, w.c_str()); if (!connected(r.in)) vx::fail("%s: connect was not answered", w.c_str()); } }
        if (!r.c->closed) { r.c->fin(); vx::pump(); } if (!r.c->closed) vx::fail("%s: not closed", w.c_str()); vx::count(2, 2, 1);
    }
    vx::note("kind %d act %d part %d", kind, act, part);
}
static int bad_roots() { return 4; }
static void bad_run(int root)
{
    for (int v = root * 64; v < root * 64 + 64; v++) for (int k = 0; k < 5; k++) { Raw r; r.open(); string c1 = hello(k, v, v, GC); r.c->send(string(1, (char) v) + c1); r.get(); if (v == 3) judge(c1, r.in, "version 3"); else if (!r.c->closed || !r.in.empty()) vx::fail("version %d is answered", v); if (!r.c->closed) { r.c->fin(); vx::pump(); } vx::count(1, 1, 1); }
    vx::note("versions %d-%d", root * 64, root * 64 + 63);
}
// ---- several handshakes at once
static int many_roots() { return 3 * 4; }
static void many_run(int root)
{
    vx::batch([&] {
        int n = vx::tier_pick(7, 9); Raw r[3]; int st[3] = { 0, 0, 0 }, gen[3] = { 0, 0, 0 }; string c1[3], log; bool aborted = false;
        for (int i = 0; i < n; i++) {
            int k = i ? vx::choose(4) : root % 4; int a = k == 3 ? (i ? vx::choose(3) : root / 4) : k; if (i == 0 && k < 3 && root / 4) { aborted = true; break; }
            string all; if (k == 3) { if (!st[a]) { aborted = true; break; } if (i % 2 || (a == 1 && st[a] == 2)) r[a].c->reset(); else r[a].c->fin(); vx::pump(); if (!r[a].c->closed) vx::fail("%s: %d stays open after it left", log.c_str(), a); log += " abort" + std::to_string(a); st[a] = 0; gen[a]++; continue; }
            log += " step" + std::to_string(a);
            switch (st[a]) {
            case 0: r[a] = Raw(); r[a].open(); c1[a] = hello((a + gen[a]) % 3, a * 7 + gen[a], 100 * a + 50, GC); r[a].c->send("\3" + c1[a].substr(0, 700)); break;
            case 1: r[a].c->send(c1[a].substr(700)); r[a].c->win = a == 1 ? 2000 : -1; break;
            case 2: r[a].c->win = -1; r[a].c->open_window(-1); r[a].get(); judge(c1[a], r[a].in, log.c_str()); r[a].c->send(r[a].in.substr(1, 800)); break;
            case 3: r[a].c->send(r[a].in.substr(801, 736) + connect_bytes()); r[a].get(); judge(c1[a], r[a].in, log.c_str()); if (!connected(r[a].in)) vx::fail("%s: connect of %d not answered", log.c_str(), a); r[a].c->fin(); vx::pump(); st[a] = -1; gen[a]++; break;
            }
            st[a]++; vx::pump(); if (st[a] && r[a].c->closed) vx::fail("%s: %d was closed", log.c_str(), a);
        }
        for (int a = 0; a < 3; a++) if (st[a]) { r[a].c->win = -1; r[a].c->open_window(-1); r[a].get(); if (!aborted && st[a] >= 2) judge(c1[a], r[a].in, log.c_str()); r[a].c->fin(); vx::pump(); if (!r[a].c->closed) vx::fail("%s: %d not closed", log.c_str(), a); }
        vx::note("%s", log.c_str());
    });
}
// ---- nginx as the client
static int client_roots() { return 4 * 5 * 4; }
static void client_run(int root)
{
    int kind = root % 4, act = root / 4 % 5, part = root / 20; std::vector<vx::Conn> up; long win = -1; nreset(); nserver(); nother = [&](vx::Conn c) { c->win = win; up.push_back(c); vx::accept_connect(c); };
    string s1; size_t total = 3073, step = (size_t) vx::tier_pick(act == 0 ? 7 : 11, 3); int seed = 0;
    for (size_t p = 1 + (size_t) part * total / 4; p <= total && p <= ((size_t) part + 1) * total / 4; p += p > 1530 && p < 1545 ? 1 : step) {
        string w = "server kind " + std::to_string(kind) + " act " + std::to_string(act) + " at " + std::to_string(p); up.clear(); nreset(); win = act == 1 ? (long) p : -1; Client pb; pb.name = "publisher"; pb.up("ps"); pb.publish("s" + std::to_string(p)); nserve();
        if (nreq.size() != 1) vx::fail("%s: %zu notifications", w.c_str(), nreq.size()); nreq[0].answered = true; nreq[0].c->send(nresp(302, "Location: rtmp://10.7.7.7:1999/x/y\r\n")); vx::pump();
        if (up.size() != 1) vx::fail("%s: %zu connections to the next server", w.c_str(), up.size()); vx::Conn c = up[0]; vx::pump(); string in = c->take(); if (act == 1) { if (p < 1537 && in.size() > p) vx::fail("?"); c->win = -1; c->open_window(-1); vx::pump(); in += c->take(); }
        if (in.size() != 1537 || in[0] != 3) vx::fail("%s: C0 C1 is %zu bytes", w.c_str(), in.size()); string c1 = in.substr(1), dg; if (!valid(c1, GC, &dg)) vx::fail("%s: C1 holds no digest", w.c_str());
        s1 = hello(kind, seed++, (int) (p * 7) % 728, GS); string s2 = kind % 3 == 0 ? c1 : body(seed); if (kind % 3) s2.replace(1504, 32, hmac(hmac(GS + GX, dg), s2.substr(0, 1504))); string all = "\3" + s1 + s2; bool dead = false;
        if (act == 2) { c->send(all.substr(0, p)); vx::pump(); if (p < total) { if (p % 2) c->fin(); else c->reset(); dead = true; } } else if (act == 3) { c->send(all.substr(0, p)); if (p < total) { vx::advance(10000); dead = true; } } else if (act == 4) { string b = all; b[0] = (char) (p % 250 + 4); c->send(b); dead = true; }
        else { c->send(all.substr(0, p)); vx::pump(); in = c->take(); if (!in.empty() && p < total) vx::fail("%s: C2 sent before S2 was complete", w.c_str()); c->send(all.substr(p)); vx::pump(); in += c->take(); }
        vx::pump();
        if (dead) { if (!c->closed) vx::fail("%s: the connection stays open", w.c_str()); }
        else { if (act >= 2) in = c->take(); if (c->closed || in.size() < 1537) vx::fail("%s: %zu bytes after S2%s", w.c_str(), in.size(), c->closed ? ", closed" : ""); string c2 = in.substr(0, 1536), sd; if (kind % 3 && valid(s1, GS, &sd) && hmac(hmac(GC + GX, sd), c2.substr(0, 1504)) != c2.substr(1504)) vx::fail("%s: C2 does not hold the digest of S1's digest", w.c_str());
            ChunkReader cr; cr.feed(in.substr(1536)); bool con = false; for (auto &m : cr.out) con |= Client::is_cmd(m, "connect"); if (!cr.err.empty() || !con) vx::fail("%s: no connect command after the handshake", w.c_str()); }
        if (pb.c->closed) vx::fail("%s: the publisher was disconnected", w.c_str()); pb.c->fin(); vx::pump(); nserve(); for (auto &q : nreq) if (!q.answered) nanswer(q, A200); vx::advance(3000); vx::pump(); for (auto &u : up) if (!u->closed) vx::fail("%s: a relay connection stays open after the publisher left", w.c_str()); vx::count(3, 3, 1);
    }
    vx::note("kind %d act %d part %d", kind, act, part);
}
// ---- PROXY protocol
static bool digits(const string &s, int max) { if (s.empty() || s.size() > 5) return false; for (char c : s) if (c < '0' || c > '9') return false; return atoi(s.c_str()) <= max; }
static bool ip4(const string &s) { int n = 0; size_t a = 0; while (1) { size_t b = s.find('.', a); string o = s.substr(a, b == string::npos ? b : b - a); if (!digits(o, 255)) return false; n++; if (b == string::npos) break; a = b + 1; } return n == 4; }
// 1 valid, 0 invalid, 2 not judged; addr: the address announced
static int proxy(const string &h, string *addr)
{
    size_t e = h.find("\r\n"); if (e == string::npos || h.compare(0, 6, "PROXY ")) return 0; string l = h.substr(6, e - 6); if (l.compare(0, 7, "UNKNOWN") == 0) { *addr = "10.0.0.1"; return l.size() == 7 || l[7] == ' ' ? 1 : 2; }
    std::vector<string> f; size_t a = 0; while (1) { size_t b = l.find(' ', a); f.push_back(l.substr(a, b == string::npos ? b : b - a)); if (b == string::npos) break; a = b + 1; }
    if (f[0] != "TCP4" && f[0] != "TCP6") return 0; if (f.size() < 3) return f.size() == 1 ? 0 : 0; *addr = f[1];
    if (f.size() != 5 || !digits(f[3], 65535) || !digits(f[4], 65535)) return 2; if (f[0] == "TCP4") return ip4(f[1]) && ip4(f[2]) ? 1 : f[1].find_first_not_of("0123456789abcdefABCDEF.:") == string::npos ? 2 : 0; return f[1].find(':') == string::npos ? 2 : f[1].find_first_not_of("0123456789abcdefABCDEF:.") != string::npos ? 0 : 2;
}
static const char *PH[] = { "PROXY TCP4 192.0.2.7 10.0.0.5 1234 1937\r\n", "PROXY TCP6 2001:db8::7 2001:db8::1 1234 1937\r\n", "PROXY UNKNOWN\r\n", "PROXY UNKNOWN ffff:f...f:ffff ffff:f...f:ffff 65535 65535\r\n", "PROXY TCP4 198.51.100.9 10.0.0.5 65535 1937\r\n" };
static int proxy_roots() { return 5 * 4; }
static void proxy_run(int root)
{
    string base = PH[root % 5], post = "\3" + body(1) + body(2) + connect_bytes("only"); Client k; k.txn = 2; string cs = k.cmd_bytes("createStream", { Null() }), pb = k.cmd_bytes("publish", { Null(), Str("s"), Str("live") }, 1, 4); post += cs + pb; int mode = root / 5;
    static const int BY[] = { 0, ' ', '\r', '\n', '0', '9', 'A', 'P', 'T', '4', '6', ':', '.', 255 }; size_t nb = sizeof BY / sizeof *BY, n = mode == 0 ? base.size() * nb : mode == 1 ? base.size() : mode == 2 ? base.size() - 1 : base.size() * 3;
    for (size_t i = 0; i < n; i++) for (int v = 0; v < 2; v++) {
        string h = base, w, rest = post; if (mode == 0) { h[i / nb] = (char) BY[i % nb]; } else if (mode == 1) h.erase(i, v ? 3 : 1); else if (mode == 2) h.insert(i, v ? "x" : " "); 
        string addr; int ok = mode == 3 ? 1 : proxy(h + (mode ? post : ""), &addr); if (mode == 3) proxy(h, &addr); w = "header '"; for (char c : h.substr(0, h.size() - 2)) w += c < ' ' ? '?' : c; w += "' mode " + std::to_string(mode);
        Raw r; r.open("1937"); string got;
        if (mode == 3) { size_t p = i / 3 + 1; if (p >= base.size()) continue; int a = (int) i % 3; r.c->send(h.substr(0, p)); r.get(); if (a == 0) { r.c->send(h.substr(p) + rest); ok = 2; } else if (a == 1) { r.c->fin(); ok = 0; } else { vx::advance(10001); ok = 0; } }
        else if (v || mode) r.c->send(h + rest); else { r.c->send(h); r.get(); if (ok == 1 && r.c->closed) vx::fail("%s: closed", w.c_str()); r.c->send(rest); }
        r.get(); bool in = r.in.size() >= 3073;
        if (ok == 0 && (in || !r.c->closed)) vx::fail("%s: accepted", w.c_str()); if (ok == 1 && !in) vx::fail("%s: refused", w.c_str());
        if (in && ok == 1) { ChunkReader cr; cr.feed(r.in.substr(3073)); bool pub = false; for (auto &m : cr.out) pub |= Client::status_code(m) == "NetStream.Publish.Start"; bool may = addr == "192.0.2.7" || addr == "2001:db8::7" || addr == "10.0.0.1"; if (pub != may) vx::fail("%s: publishing as %s is %s", w.c_str(), addr.c_str(), pub ? "allowed" : "refused"); }
        if (!r.c->closed) { r.c->fin(); vx::pump(); if (!r.c->closed) vx::fail("%s: not closed", w.c_str()); } vx::count(1, 1, 1);
    }
    vx::note("header %d mode %d", root % 5, mode);
}
VX_SCENARIOS(
    { "digest", digest_roots, digest_run, "C1 without a digest (version 0 or not) and with a digest in both schemes at every of the 728 offsets, intact or with a bit flipped" },
    { "seg", seg_roots, seg_run, "old and digest handshakes followed by connect, cut at every byte: in two segments with and without processing between, with a pause just below the timeout, the client leaving or silent there; the socket blocking at each of these positions of the response" },
    { "bad", bad_roots, bad_run, "every value of C0 x 5 kinds of C1" },
    { "many", many_roots, many_run, "every interleaving of 7 (9) steps of three handshakes, each step advancing one of them (4 stages) or aborting it" },
    { "client", client_roots, client_run, "nginx as the client: 4 kinds of server x S0 S1 S2 cut, closed or silent at every 7-11th (3rd) byte and around C1's end, the socket blocking there, every wrong version" },
    { "proxy", proxy_roots, proxy_run, "5 PROXY headers with every byte replaced by 14 values, every deletion of 1 and 3 bytes, every insertion, sent in one or two segments or cut there" }
)
