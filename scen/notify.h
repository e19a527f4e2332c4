// The HTTP server that receives the notifications, played by the scenario.
#pragma once
#include "../engine/vx.h"
#include <string>
#include <map>
#include <vector>
namespace rt {
using std::string;
struct NReq { string path; std::map<string, string> q; string call, act, raw; std::vector<string> dup; vx::Conn c; uint64_t at; bool answered = false; string str() const { return path + " " + call + "/" + act; } };
static std::vector<NReq> nreq; static size_t nseen; static std::vector<vx::Conn> nconn; static std::map<vx::Sock *, string> nbuf;
static int nmode;                            // what happens to new connections: 0 accepted, 1 refused, 2 no answer
static string nport = ":9000";
static std::function<void(vx::Conn)> nother; // connections that are not to the notification server
static void nserver()
{
    vx::on_connect = [](vx::Conn c) {
        string p = c->peer_str();
        if (p.size() < nport.size() || p.compare(p.size() - nport.size(), nport.size(), nport)) { if (nother) nother(c); else vx::fail("unexpected connection to %s", p.c_str()); return; }
        if (nmode == 0) { nconn.push_back(c); vx::accept_connect(c); } else if (nmode == 1) vx::refuse_connect(c);
    };
}
static void nparse(vx::Conn c, string h)
{
    NReq r; r.c = c; r.raw = h; r.at = vx::now_ms();
    size_t e = h.find("\r\n"); string l = h.substr(0, e);
    if (l.compare(0, 4, "GET ")) vx::fail("notification is no GET request: '%s'", l.c_str());
    size_t sp = l.find(' ', 4); if (sp == string::npos || l.substr(sp) != " HTTP/1.1") vx::fail("invalid request line in a notification: '%s'", l.c_str());
    string u = l.substr(4, sp - 4); size_t qm = u.find('?'); r.path = u.substr(0, qm);
    while (qm != string::npos) { size_t n = u.find('&', qm + 1); string kv = u.substr(qm + 1, n == string::npos ? n : n - qm - 1); size_t eq = kv.find('='); string k = kv.substr(0, eq); if (r.q.count(k)) r.dup.push_back(k); else r.q[k] = eq == string::npos ? "" : kv.substr(eq + 1); qm = n; }
    r.call = r.q["call"]; r.act = r.q["act"];
    bool host = false; while (e != string::npos) { e += 2; size_t n = h.find("\r\n", e); string x = h.substr(e, n == string::npos ? n : n - e); if (x.compare(0, 6, "Host: ") == 0) host = true; if (x.find(": ") == string::npos) vx::fail("invalid header line in a notification: '%s'", x.c_str()); e = n; }
    if (!host) vx::fail("notification without Host");
    nreq.push_back(r);
}
static void nserve()
{
    vx::pump();
    for (auto &c : nconn) { string &b = nbuf[c.get()]; b += c->take(); size_t e; while ((e = b.find("\r\n\r\n")) != string::npos) { string h = b.substr(0, e); b = b.substr(e + 4); nparse(c, h); } }
    std::vector<vx::Conn> k; for (auto &c : nconn) if (!c->closed) k.push_back(c); else nbuf.erase(c.get());
    nconn.swap(k);
}
static string nlist() { string s; for (auto &r : nreq) s += " " + r.call + "/" + r.act; return s.empty() ? " none" : s; }
// the requests since the last call must be exactly these ("publish/start")
static NReq *nexpect(const std::vector<string> &want, const char *when)
{
    nserve(); string g; for (size_t i = nseen; i < nreq.size(); i++) g += " " + nreq[i].call + "/" + nreq[i].act; string w; for (auto &x : want) w += " " + x;
    if (g != w) vx::fail("%s: notifications sent:%s; expected:%s", when, g.empty() ? " none" : g.c_str(), w.empty() ? " none" : w.c_str());
    nseen = nreq.size(); return nreq.empty() ? nullptr : &nreq.back();
}
static string nresp(int code, const string &hdr = "", const string &body = "") { return "HTTP/1.1 " + std::to_string(code) + " X\r\n" + hdr + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; }
// kinds of answers
enum { A200, A204, A200B, ASPLIT, A302, A403, A500, AGARB, ACLOSE, AHALF, ATIMEOUT, A_MAX };
static const char *AN[] = { "200", "204", "200 with a body", "200 in pieces", "302", "403", "500", "garbage", "closed", "closed in the header", "no answer" };
static bool apositive(int a) { return a <= ASPLIT; }
static bool afailed(int a) { return a >= ACLOSE; }
static void nanswer(NReq &r, int a, long timeout = 3000)
{
    r.answered = true;
    switch (a) {
    case A200: r.c->send(nresp(200)); break;
    case A204: r.c->send("HTTP/1.1 204 No Content\r\nContent-Length: 0\r\n\r\n"); break;
    case A200B: r.c->send("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n"); break;
    case ASPLIT: { string s = nresp(200, "X-A: b\r\n", "body"); for (size_t i = 0; i < s.size(); i++) { r.c->send(s.substr(i, 1)); if (i % 3 == 0) vx::pump(); } break; }
    case A302: r.c->send(nresp(302, "Location: http://10.9.9.9/x\r\n")); break;
    case A403: r.c->send(nresp(403)); break;
    case A500: r.c->send(nresp(500, "", "oops")); break;
    case AGARB: r.c->send("no http at all\r\n\r\n"); break;
    case ACLOSE: r.c->fin(); break;
    case AHALF: r.c->send("HTTP/1.1 200 OK\r\nX-"); vx::pump(); r.c->fin(); break;
    case ATIMEOUT: nserve(); vx::advance(timeout); break;
    }
    nserve();
}
static void nreset() { for (auto &c : nconn) if (!c->closed) c->fin(); vx::pump(); nconn.clear(); nbuf.clear(); nreq.clear(); nseen = 0; nmode = 0; }
}
