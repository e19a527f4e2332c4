// Bit writer and AVC sequence parameter sets, written from ITU-T H.264 7.3.2.1.
#pragma once
#include "rtmp.h"
namespace rt {
struct Bits { string s; int n = 0; void u(uint64_t v, int k) { while (k--) { if (n % 8 == 0) s += '\0'; if (v >> k & 1) s.back() = (char) (s.back() | 1 << (7 - n % 8)); n++; } } void ue(uint64_t v) { v++; int k = 63 - __builtin_clzll(v); u(0, k); u(v, k + 1); } void se(int64_t v) { ue(v > 0 ? 2 * (uint64_t) v - 1 : (uint64_t) (-2 * v)); } void trail() { u(1, 1); while (n % 8) u(0, 1); } };
static string ebsp(const string &s) { string o; int z = 0; for (char c : s) { if (z >= 2 && (unsigned char) c <= 3) { o += '\3'; z = 0; } o += c; z = c ? 0 : z + 1; } return o; }
struct Avc { int prof = 66, level = 30, cf = 1, depth = 0, scaling = 0, poc = 0, fmo = 1, crop = 0, refs = 1; long mbw = 40, mbh = 30; int l, r, t, b; };
static string avcsps(const Avc &a)
{
    Bits x; x.u(a.prof, 8); x.u(a.prof == 66 ? 0xc0 : 0, 8); x.u(a.level, 8); x.ue(0);
    if (a.prof >= 100 || a.prof == 44) { x.ue(a.cf); if (a.cf == 3) x.u(0, 1); x.ue(a.depth); x.ue(a.depth); x.u(0, 1); x.u(a.scaling > 0, 1); if (a.scaling) for (int i = 0; i < (a.cf != 3 ? 8 : 12); i++) { int present = a.scaling == 2 || (a.scaling == 3 && i % 2); x.u(present, 1); if (present) { int n = i < 6 ? 16 : 64; if (a.scaling == 3 && i % 3 == 0) { x.se(-8); } else { int last = 8; for (int j = 0; j < n; j++) { int v = 8 + (j * (i + 1)) % 40; x.se(v - last); last = v; if (a.scaling == 3 && j == 5) { x.se(-last); break; } } } } } }
    x.ue(0); x.ue(a.poc); if (a.poc == 0) x.ue(4); if (a.poc == 1) { x.u(0, 1); x.se(-2); x.se(3); x.ue(3); for (int i = 0; i < 3; i++) x.se(i - 1); }
    x.ue(a.refs); x.u(0, 1); x.ue(a.mbw - 1); x.ue(a.mbh - 1); x.u(a.fmo, 1); if (!a.fmo) x.u(0, 1); x.u(1, 1); x.u(a.crop, 1); if (a.crop) { x.ue(a.l); x.ue(a.r); x.ue(a.t); x.ue(a.b); } x.u(1, 1); x.u(0, 8); x.trail(); return "\x67" + ebsp(x.s);
}
}
