// FLV decoder.
#pragma once
#include "rtmp.h"
namespace rt {
struct FlvFile { bool ok = true; string err; int flags = -1; std::vector<Msg> tags; size_t used = 0, rest = 0; };
inline FlvFile flv_parse(const string &b)
{
    FlvFile f; size_t p = 0;
    if (b.empty()) return f;
    if (b.size() < 13) { f.rest = b.size(); return f; }
    if (b.compare(0, 3, "FLV") || b[3] != 1 || rbe(b, 5, 4) != 9 || rbe(b, 9, 4) != 0) { f.ok = false; f.err = "bad FLV file header"; return f; }
    f.flags = (unsigned char) b[4]; p = 13;
    while (p + 11 <= b.size()) {
        size_t n = rbe(b, p + 1, 3); Msg m; m.type = (unsigned char) b[p]; m.ts = (uint32_t) (rbe(b, p + 4, 3) | rbe(b, p + 7, 1) << 24); m.sid = (uint32_t) rbe(b, p + 8, 3);
        if (m.type != 8 && m.type != 9 && m.type != 18 && m.type != 15) { f.ok = false; f.err = "tag of type " + std::to_string(m.type); return f; }
        if (m.sid) { f.ok = false; f.err = "tag with stream id"; return f; }
        if (p + 11 + n + 4 > b.size()) break;
        m.data = b.substr(p + 11, n);
        if (rbe(b, p + 11 + n, 4) != n + 11) { f.ok = false; f.err = "previous tag size " + std::to_string(rbe(b, p + 11 + n, 4)) + " after a tag of " + std::to_string(n + 11) + " bytes"; return f; }
        f.tags.push_back(m); p += 11 + n + 4;
    }
    f.used = p; f.rest = b.size() - p; return f;
}
}
