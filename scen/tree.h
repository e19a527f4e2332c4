// Strict readers of XML and JSON documents.
#pragma once
#include "../engine/vx.h"
#include <string>
#include <map>
#include <memory>
#include <vector>
namespace rt {
using std::string;
struct Node {
    string name, text, err; std::vector<std::unique_ptr<Node>> kids; std::map<string, string> attr;
    int count(const string &n) const { int c = 0; for (auto &k : kids) c += k->name == n; return c; }
    const Node *get(const string &n) const { for (auto &k : kids) if (k->name == n) return k.get(); return nullptr; }
    string val(const string &n) const { auto p = get(n); return p ? p->text : ""; }
    std::vector<const Node *> all(const string &n) const { std::vector<const Node *> v; for (auto &k : kids) if (k->name == n) v.push_back(k.get()); return v; }
};
static bool xml_utf8(const string &t, size_t &p) { unsigned char c = t[p]; if (c < 0x80) { p++; return c >= 0x20 || c == 9 || c == 10 || c == 13; } size_t n = c >= 0xf0 && c < 0xf5 ? 3 : c >= 0xe0 ? 2 : c >= 0xc2 ? 1 : 9; if (n == 9 || p + n >= t.size()) return false; for (size_t i = 1; i <= n; i++) if ((t[p + i] & 0xc0) != 0x80) return false; p += n + 1; return true; }
static string unxml(const string &s, string &err)
{
    string o; for (size_t p = 0; p < s.size();) { if (s[p] == '<') { err = "bare <"; return o; } if (s[p] != '&') { size_t q = p; if (!xml_utf8(s, q)) { err = "byte " + std::to_string((unsigned char) s[p]); return o; } o += s.substr(p, q - p); p = q; continue; }
        size_t e = s.find(';', p); if (e == string::npos) { err = "bare &"; return o; } string n = s.substr(p + 1, e - p - 1); if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "amp") o += '&'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\''; else { err = "entity &" + n; return o; } p = e + 1; }
    return o;
}
static std::unique_ptr<Node> xml(const string &t)
{
    std::unique_ptr<Node> root(new Node); std::vector<Node *> st{ root.get() }; size_t p = 0; auto bad = [&](const string &e) { if (root->err.empty()) root->err = e + " at " + std::to_string(p); };
    while (p < t.size() && root->err.empty()) {
        if (t[p] != '<') { size_t q = t.find('<', p); if (q == string::npos) q = t.size(); string e, v = unxml(t.substr(p, q - p), e); if (!e.empty()) bad(e); if (st.size() == 1 && v.find_first_not_of(" \r\n\t") != string::npos) bad("text outside"); st.back()->text += v; p = q; continue; }
        if (!t.compare(p, 2, "<?")) { size_t q = t.find("?>", p); if (q == string::npos || st.size() > 1) { bad("declaration"); break; } string e; unxml(t.substr(p + 2, q - p - 2), e); if (!e.empty()) bad(e); size_t n = std::count(t.begin() + (long) p, t.begin() + (long) q, '"'); if (n % 2) bad("quotes"); p = q + 2; continue; }
        size_t e = t.find('>', p); if (e == string::npos) { bad("unfinished tag"); break; } string g = t.substr(p + 1, e - p - 1); p = e + 1;
        if (!g.empty() && g[0] == '/') { if (st.size() < 2 || st.back()->name != g.substr(1)) { bad("end of " + g); break; } st.pop_back(); continue; }
        bool self = !g.empty() && g.back() == '/'; if (self) g.pop_back(); for (char c : g) if (!isalnum((unsigned char) c) && c != '_') bad("tag " + g); if (g.empty()) bad("tag");
        if (st.size() == 1 && !root->kids.empty()) bad("two roots"); st.back()->kids.emplace_back(new Node); Node *n = st.back()->kids.back().get(); n->name = g; if (!self) st.push_back(n);
    }
    if (root->err.empty() && (st.size() != 1 || root->kids.size() != 1)) bad("unfinished"); return root;
}
// arrays are nodes whose children have no name
struct JsonP {
    const string &t; size_t p = 0; string err; JsonP(const string &x) : t(x) {}
    void bad(const string &e) { if (err.empty()) err = e + " at " + std::to_string(p); }
    void ws() { while (p < t.size() && strchr(" \t\r\n", t[p])) p++; }
    string str() { string o; if (p >= t.size() || t[p] != '"') { bad("no string"); return o; } p++; while (p < t.size() && t[p] != '"') { unsigned char c = t[p]; if (c < 0x20) { bad("control byte"); return o; } if (c == '\\') { p++; char d = p < t.size() ? t[p] : 0; if (d == 'u') { unsigned v = 0; if (sscanf(t.substr(p + 1, 4).c_str(), "%4x", &v) != 1) bad("escape"); o += (char) v; p += 5; continue; } const char *k = "\"\\/bfnrt", *q = d ? strchr(k, d) : nullptr; if (!q) { bad("escape"); return o; } o += "\"\\/\b\f\n\r\t"[q - k]; p++; continue; } size_t q = p; if (!xml_utf8(t, q)) { bad("invalid UTF-8"); return o; } o += t.substr(p, q - p); p = q; } if (p >= t.size()) bad("unfinished string"); p++; return o; }
    void value(Node *n) {
        ws(); if (p >= t.size()) { bad("nothing"); return; } char c = t[p];
        if (c == '{' || c == '[') { char e = c == '{' ? '}' : ']'; p++; ws(); if (p < t.size() && t[p] == e) { p++; return; } while (err.empty()) { n->kids.emplace_back(new Node); Node *k = n->kids.back().get(); ws(); if (c == '{') { k->name = str(); ws(); if (p >= t.size() || t[p] != ':') { bad("no colon"); return; } p++; } value(k); ws(); if (p < t.size() && t[p] == ',') { p++; continue; } if (p < t.size() && t[p] == e) { p++; return; } bad("no comma"); } return; }
        if (c == '"') { n->text = str(); return; } for (const char *w : { "true", "false", "null" }) if (!t.compare(p, strlen(w), w)) { n->text = w; p += strlen(w); return; }
        size_t q = p; while (q < t.size() && strchr("+-0123456789.eE", t[q])) q++; if (q == p) { bad("no value"); return; } n->text = t.substr(p, q - p); p = q;
    }
};
static std::unique_ptr<Node> json(const string &t) { std::unique_ptr<Node> r(new Node); JsonP j(t); j.value(r.get()); j.ws(); if (j.p != t.size()) j.bad("rest"); r->err = j.err; return r; }
}
