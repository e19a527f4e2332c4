// An HTTP client whose response is decoded independently of nginx.
#pragma once
#include "../engine/vx.h"
#include <string>
#include <map>
#include <vector>
namespace rt {
using std::string;
struct Http {
    vx::Conn c; string name = "http client", raw; size_t used = 0;
    int status = 0; std::map<string, string> hdr; string body; bool head = false, chunked = false, complete = false; long clen = -1; string err; size_t pos = 0; bool no_body = false;
    void open(const string &where = "80", const string &ip = "10.0.0.9") { c = vx::connect_to(where, ip); }
    static string req(const string &path, const string &ver = "1.1", const string &method = "GET", const string &extra = "", const string &host = "live.test")
    { return method + " " + path + " HTTP/" + ver + "\r\nHost: " + host + "\r\n" + extra + "\r\n"; }
    void get(const string &path, const string &ver = "1.1", const string &where = "80") { open(where); c->send(req(path, ver)); }
    // decode what has arrived
    void collect()
    {
        raw += c->take();
        if (!head) {
            size_t e = raw.find("\r\n\r\n"); if (e == string::npos) return;
            head = true; string h = raw.substr(0, e); pos = e + 4;
            if (h.compare(0, 7, "HTTP/1.") || h.size() < 12) { err = "no status line"; return; }
            status = atoi(h.c_str() + 9); size_t p = h.find("\r\n");
            while (p != string::npos) { p += 2; size_t q = h.find("\r\n", p); string l = h.substr(p, q == string::npos ? q : q - p); size_t k = l.find(": "); if (k == string::npos) err = "bad header line"; else { string n = l.substr(0, k); for (auto &ch : n) ch = (char) tolower(ch); hdr[n] = l.substr(k + 2); } p = q; }
            chunked = hdr.count("transfer-encoding") && hdr["transfer-encoding"] == "chunked";
            if (hdr.count("content-length")) clen = atol(hdr["content-length"].c_str());
            if (status == 204 || status == 304) no_body = true;
        }
        if (no_body) { complete = true; if (pos < raw.size()) err = "body where none is allowed"; return; }
        if (chunked) {
            while (!complete) {
                size_t e = raw.find("\r\n", pos); if (e == string::npos) { if (raw.size() - pos > 20) err = "bad chunk size"; return; }
                string l = raw.substr(pos, e - pos); if (l.empty() || l.find_first_not_of("0123456789abcdefABCDEF") != string::npos) { err = "bad chunk size '" + l + "'"; return; }
                size_t n = strtoul(l.c_str(), nullptr, 16);
                if (n == 0) { if (raw.size() < e + 4) return; if (raw.substr(e + 2, 2) != "\r\n") err = "bad end of chunks"; complete = true; pos = e + 4; break; }
                if (raw.size() < e + 2 + n + 2) { partial = raw.substr(e + 2, n); return; }
                partial.clear(); body += raw.substr(e + 2, n); if (raw.substr(e + 2 + n, 2) != "\r\n") { err = "chunk not closed"; return; }
                pos = e + 2 + n + 2;
            }
        } else { body += raw.substr(pos); pos = raw.size(); if (clen >= 0 && body.size() >= (size_t) clen) { complete = true; if (body.size() > (size_t) clen) err = "more body than announced"; } }
    }
    string partial;                          // bytes of a chunk that has not ended
    string all() const { return body + partial; }
    void check() { collect(); if (!err.empty()) vx::fail("%s: invalid HTTP response: %s", name.c_str(), err.c_str()); }
};
}
