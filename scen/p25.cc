// P25: URLs, socket addresses, per-worker ports and stream arguments are taken apart exactly.
#include "rtmp.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <strings.h>
#include <sys/un.h>
using namespace rt;
extern "C" { int pa_url(const unsigned char *, int, int *, int *); int pa_port(const char *, int, const char *, int); int pa_pton(const char *, int, void *); int pa_multi(const char *, int, int, char *); int pa_arg(const unsigned char *, int, const char *, int, int *, int *); }
static const char *PN[] = { "scheme", "user", "host", "port", "path", "args", "fragment", "host with port", "uri with args" };
static uint64_t n;
// a heap copy of exact size, so that reading past the end is seen
struct Exact { char *p; int n; Exact(const string &s) : p((char *) malloc(s.size() ? s.size() : 1)), n((int) s.size()) { memcpy(p, s.data(), s.size()); } ~Exact() { free(p); } };
struct Url { int rc; string part[9]; bool in = true; };
static Url url(const string &s) { Exact e(s); Url u; int off[9], len[9]; u.rc = pa_url((unsigned char *) e.p, e.n, off, len); n++; for (int i = 0; i < 9; i++) { if (len[i] < 0 || (len[i] && (off[i] < 0 || off[i] + len[i] > e.n))) { if (u.rc == 0) vx::fail("URL '%s': the %s lies outside of the text", s.c_str(), PN[i]); } else if (len[i]) u.part[i] = s.substr((size_t) off[i], (size_t) len[i]); } return u; }
static int url_roots() { return 6; }
static void url_run(int root)
{
    static const char *SC[] = { "http", "rtmp", "x" }, *US[] = { "", "u", "alex:pw", "a b" }, *HO[] = { "h", "www.example.com", "1.2.3.4", "a-b_c" }, *PO[] = { "", "1", "1935", "65535", "x" },
        *PA[] = { "", "p", "a/b", "a:1", "a@b", "a/b/", "//", "live/s&t" }, *AR[] = { "", "a=b", "a=b&c=d", "?", "/x", "u@h:1", "a?b" }, *FR[] = { "", "f", "f#g", "/?" };
    vx::batch([&] {
        string sc = SC[root % 3], us = US[vx::choose(4)], ho = HO[vx::choose(4)], po = PO[vx::choose(5)], pa = PA[vx::choose(8)], ar = AR[vx::choose(7)], fr = FR[vx::choose(4)]; bool slash = root / 3;
        if (us == "alex:pw") us = "alex"; // a ':' before '@' would be taken for the user
        if (!slash && (!pa.empty() || !ar.empty() || !fr.empty())) return;
        if (ar.empty() && !fr.empty()) return;
        if (pa.empty() && !ar.empty()) return;
        string s = sc + "://" + (us.empty() ? "" : us + "@") + ho + (po.empty() ? "" : ":" + po) + (slash ? "/" : "") + pa + (ar.empty() ? "" : "?" + ar) + (fr.empty() ? "" : "#" + fr);
        if (!slash && false) return;
        Url u = url(s); string w[9] = { sc, us, ho, po, pa, ar, fr, ho + (po.empty() ? "" : ":" + po), pa + (ar.empty() ? "" : "?" + ar) + (fr.empty() ? "" : "#" + fr) };
        if (u.rc) vx::fail("URL '%s' is refused", s.c_str());
        for (int i = 0; i < 9; i++) if (u.part[i] != w[i]) vx::fail("URL '%s': the %s is '%s', not '%s'", s.c_str(), PN[i], u.part[i].c_str(), w[i].c_str());
    });
    vx::count(n, n, n); n = 0; vx::observe_u64(root);
}
// arbitrary text: what is accepted can be put together again
static int text_roots() { return 49; }
static void text_run(int root)
{
    const char *al = "a/:?#@&"; int L = vx::tier_pick(8, 9); string pre[] = { "http://", "", "a:/" }; string two = string(1, al[root % 7]) + al[root / 7];
    for (auto &p : pre) for (int l = 2; l <= L; l++) {
        long tot = 1; for (int i = 2; i < l; i++) tot *= 7;
        for (long c = 0; c < tot; c++) {
            string t = two; long x = c; for (int i = 2; i < l; i++) { t += al[x % 7]; x /= 7; }
            string s = p + t; Url u = url(s); size_t k = s.find("://");
            if (k == string::npos) { if (!u.rc) vx::fail("'%s' is accepted as a URL", s.c_str()); continue; }
            if (u.rc) continue;
            string b = u.part[0] + "://" + (u.part[1].empty() ? "" : u.part[1] + "@") + u.part[7]; string uri = u.part[8];
            if (s != b && s != b + "/" + uri) vx::fail("URL '%s' is accepted but its parts make '%s'", s.c_str(), (b + "/" + uri).c_str());
            string hp = u.part[2] + (u.part[3].empty() ? "" : ":" + u.part[3]); if (hp != u.part[7]) vx::fail("URL '%s': host '%s' port '%s', together '%s'", s.c_str(), u.part[2].c_str(), u.part[3].c_str(), u.part[7].c_str());
            string up = u.part[4] + (u.part[5].empty() ? "" : "?" + u.part[5]) + (u.part[6].empty() ? "" : "#" + u.part[6]); string up2 = u.part[4] + "?#" + u.part[6]; if (up != uri && up2 != uri) vx::fail("URL '%s': path, args and fragment make '%s', the uri is '%s'", s.c_str(), up.c_str(), uri.c_str());
            if (u.part[0].find("://") != string::npos || u.part[7].find('/') != string::npos || u.part[1].find('@') != string::npos || (u.part[4].find('?') != string::npos)) vx::fail("URL '%s' is cut at the wrong place", s.c_str());
        }
    }
    vx::count(n, n, n); n = 0; vx::observe_u64(root);
}
static long num(const string &p) { if (p.empty() || p.size() > 18) return -1; long v = 0; for (char c : p) { if (c < '0' || c > '9') return -1; v = v * 10 + (c - '0'); } return v; }
static int port_roots() { return 5; }
static void port_run(int root)
{
    static const char *SC[] = { "http", "https", "rtmp", "", "rtsp" }; static const int DF[] = { 80, 443, 1935, 0, 0 };
    auto one = [&](const string &p) { Exact e(p); int g = pa_port(SC[root], (int) strlen(SC[root]), e.p, e.n); n++; long v = num(p); int w = p.empty() ? DF[root] : v < 1 || v > 65535 ? 0 : (int) v; if (g != w) vx::fail("scheme '%s' port '%s' gives %d, not %d", SC[root], p.c_str(), g, w); };
    one(""); const char *al = "0156x-"; for (int l = 1; l <= 6; l++) { long tot = 1; for (int i = 0; i < l; i++) tot *= 6; for (long c = 0; c < tot; c++) { string t; long x = c; for (int i = 0; i < l; i++) { t += al[x % 6]; x /= 6; } one(t); } }
    for (int i = 0; i < 66000; i++) one(std::to_string(i)); for (auto s : { "4294967297", "18446744073709551617", "99999999999999999999", "000000000080" }) { if (string(s).size() < 19) one(s); else { Exact e(s); if (pa_port(SC[root], (int) strlen(SC[root]), e.p, e.n)) vx::fail("port %s", s); } }
    for (auto s : { "htt", "httpx", "HTTP2", "rtmps", "ht" }) if (pa_port(s, (int) strlen(s), "", 0)) vx::fail("scheme '%s' has a default port", s);
    vx::count(n, n, n); n = 0; vx::observe_u64(root);
}
struct Sa { int len; sockaddr_storage ss; };
static Sa pton(const string &t) { Exact e(t); Sa s; sockaddr_storage *h = (sockaddr_storage *) calloc(1, sizeof(sockaddr_storage)); s.len = pa_pton(e.p, e.n, h); s.ss = *h; free(h); n++; return s; }
static void check4(const string &host, const string &port, bool has)
{
    in_addr a; bool ok = inet_pton(AF_INET, host.c_str(), &a) == 1 && host != "255.255.255.255"; long v = num(port); if (has && (v < 0 || v > 65535)) ok = false;
    string t = host + (has ? ":" + port : ""); Sa s = pton(t); auto *in = (sockaddr_in *) &s.ss;
    if (!ok) { bool canonical = inet_pton(AF_INET, host.c_str(), &a) == 1 && host != "255.255.255.255"; if (s.len && (canonical || host.find_first_not_of("0123456789.") != string::npos)) vx::fail("address '%s' is accepted", t.c_str()); return; }
    if (s.len != (int) sizeof(sockaddr_in) || in->sin_family != AF_INET || in->sin_addr.s_addr != a.s_addr || (has && ntohs(in->sin_port) != v)) vx::fail("address '%s' gives length %d %s:%d", t.c_str(), s.len, inet_ntoa(in->sin_addr), ntohs(in->sin_port));
}
static void check6(const string &host, const string &port, int form)
{
    in6_addr a; bool ok = inet_pton(AF_INET6, host.c_str(), &a) == 1; long v = num(port); if (form == 1 && (v < 0 || v > 65535)) ok = false; if (form == 2) ok = false; if (form == 3) ok = false;
    string t = "[" + host + (form == 2 ? "" : "]") + (form == 1 ? ":" + port : form == 3 ? port + "x" : ""); Sa s = pton(t); auto *in = (sockaddr_in6 *) &s.ss; char b[64];
    if (!ok) { if (s.len && inet_pton(AF_INET6, host.c_str(), &a) == 1) vx::fail("address '%s' is accepted", t.c_str()); return; }
    if (s.len != (int) sizeof(sockaddr_in6) || in->sin6_family != AF_INET6 || memcmp(&in->sin6_addr, &a, 16) || (form == 1 && ntohs(in->sin6_port) != v)) vx::fail("address '%s' gives length %d %s port %d", t.c_str(), s.len, inet_ntop(AF_INET6, &in->sin6_addr, b, sizeof b), ntohs(in->sin6_port));
}
static int addr_roots() { return 8; }
static void addr_run(int root)
{
    static const char *OC[] = { "0", "1", "10", "127", "200", "255", "256", "300", "x", "1000", "" }; static const char *PO[] = { "0", "1", "80", "65535", "65536", "x", "8x", "", "99999", "-1", "4294967376" };
    vx::batch([&] {
        if (root < 6) { string h = OC[vx::choose(11)]; if (root == 0) h += string(".") + OC[vx::choose(11)] + "." + OC[vx::choose(11)] + "." + OC[vx::choose(11)]; else { int k = root - 1; for (int i = 1; i < 5; i++) if (i != k) h += string(".") + OC[vx::choose(i < 4 ? 6 : 3)]; } int p = vx::choose(12); check4(h, p ? PO[p - 1] : "", p > 0); }
        else if (root == 6) { static const char *G[] = { "::1", "::", "fe80::1", "1:2:3:4:5:6:7:8", "2001:db8::ffff", "1::2::3", "g::", "12345::", "1:2:3", "::ffff:1.2.3.4", "" }; int g = vx::choose(11), p = vx::choose(11), f = vx::choose(4); if ((f == 3 || f == 1) || p == 0) { if (f == 1 || f == 3 || p == 0) check6(G[g], PO[p], f); } }
        else { int l = vx::choose(112); string path = string((size_t) l, 'p'); static const char *PR[] = { "unix:", "UNIX:", "Unix:" }; string t = PR[vx::choose(3)] + path; Sa s = pton(t); auto *un = (sockaddr_un *) &s.ss;
            if (l == 0 || l > 107) { if (s.len) vx::fail("a unix address with a path of %d bytes is accepted", l); } else if (s.len != (int) sizeof(sockaddr_un) || un->sun_family != AF_UNIX || path != un->sun_path) vx::fail("unix address of %d bytes: wrong result", l); }
    });
    vx::count(n, n, n); n = 0; vx::observe_u64(root);
}
static int multi_roots() { return 4; }
static void multi_run(int root)
{
    static const char *pre[] = { "", "127.0.0.1:", "[::1]:", "unix:/tmp/http." }; char out[256];
    for (int slot = -1; slot <= 128; slot++) for (int p = 0; p <= 65536; p += p < 200 || p > 65200 || (p > 900 && p < 1100) || (p > 9800 && p < 10100) ? 1 : vx::tier_pick(7, 1)) {
        string t = pre[root] + std::to_string(p); if (root == 3) t = "unix:/tmp/http" + string((size_t) (p % 90), 'x'); Exact e(t); int rc = pa_multi(e.p, e.n, slot, out); n++;
        bool bad = slot < 0 || slot > 127 || (root < 3 && p < 1); if (bad) { if (!rc) vx::fail("'%s' for slot %d is accepted: %s", t.c_str(), slot, out); continue; }
        if (root < 3 && p + slot > 65408) { if (!rc && string(out) != pre[root] + std::to_string(p + slot)) vx::fail("'%s' for slot %d gives '%s'", t.c_str(), slot, out); if (!rc && p + slot > 65535) vx::fail("'%s' for slot %d gives port '%s'", t.c_str(), slot, out); continue; }
        string w = root == 3 ? t + "." + std::to_string(slot) : pre[root] + std::to_string(p + slot); if (rc || w != out) vx::fail("'%s' for slot %d gives %s '%s', not '%s'", t.c_str(), slot, rc ? "an error" : "", rc ? "" : out, w.c_str());
    }
    for (auto s : { "", "x", "127.0.0.1:", "[::1]", "[::1]:", "[::1", "127.0.0.1:x", "[::1]:x", "80x" }) { Exact e(s); if (!pa_multi(e.p, e.n, 0, out)) vx::fail("'%s' is accepted: '%s'", s, out); }
    vx::count(n, n, n); n = 0; vx::observe_u64(root);
}
static int arg_roots() { return 4; }
static void arg_run(int root)
{
    static const char *NM[] = { "a", "ab", "b", "Ab" }; const char *name = NM[root], *al = "aAb=&"; int nl = (int) strlen(name), L = vx::tier_pick(9, 11);
    for (int l = 0; l <= L; l++) { long tot = 1; for (int i = 0; i < l; i++) tot *= 5;
        for (long c = 0; c < tot; c++) {
            string t; long x = c; for (int i = 0; i < l; i++) { t += al[x % 5]; x /= 5; }
            int wo = -1, wl = 0; for (size_t p = 0; p <= t.size() && wo < 0;) { size_t q = t.find('&', p); if (q == string::npos) q = t.size(); if (q - p > (size_t) nl && t[p + (size_t) nl] == '=' && !strncasecmp(t.c_str() + p, name, (size_t) nl)) { wo = (int) p + nl + 1; wl = (int) (q - p) - nl - 1; } p = q + 1; }
            Exact e(t); int off, len, rc = pa_arg((unsigned char *) e.p, e.n, name, nl, &off, &len); n++;
            if ((rc == 0) != (wo >= 0) || (rc == 0 && (off != wo || len != wl))) vx::fail("argument '%s' of '%s': %s at %d length %d, should be %s at %d length %d", name, t.c_str(), rc ? "absent" : "found", off, len, wo < 0 ? "absent" : "found", wo, wl);
        } }
    vx::count(n, n, n); n = 0; vx::observe_u64(root);
}
VX_SCENARIOS({ "url", url_roots, url_run, "every URL put together from 3 schemes, 4 users, 4 hosts, 5 ports, 8 paths, 7 argument lists, 4 fragments" },
             { "text", text_roots, text_run, "every text of up to 8 (9) characters over 7, after 3 prefixes" },
             { "port", port_roots, port_run, "every port text of up to 6 characters over 6, every number up to 66000, 5 schemes" },
             { "addr", addr_roots, addr_run, "addresses from 11 octet values, 11 ports; 11 IPv6 groups in 4 forms; unix paths of every length" },
             { "multi", multi_roots, multi_run, "4 address kinds x process slots -1..128 x ports 0..65536 (quick: every 7th away from the limits)" },
             { "args", arg_roots, arg_run, "4 names x every argument text of up to 9 (11) characters over 5" })
