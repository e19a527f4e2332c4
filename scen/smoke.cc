#include "rtmp.h"
using namespace rt;
static int roots() { return 3; }
static void run(int root)
{
    Client pub; pub.name = "pub";
    bool ok = pub.publisher("s");
    vx::note("publisher ok=%d msgs=%zu", ok, pub.r.out.size());
    for (auto &m : pub.r.out) { std::vector<Val> v; dec_all(m.data, v); string s; if (m.type == 20) for (auto &x : v) s += vstr(x) + " "; vx::note("  %s %s", mstr(m).c_str(), s.c_str()); }
    Client pl; pl.name = "player";
    bool ok2 = pl.player("s");
    vx::note("player ok=%d", ok2);
    pub.send(meta(), 4); pub.send(video(0, avc_seq()), 6); pub.send(audio(0, aac_seq()), 5);
    for (int i = 0; i < 4; i++) { pub.send(video(i * 40, i % 2 ? avc_inter("f" + std::to_string(i)) : avc_key("k" + std::to_string(i))), 6); if (vx::choose(2)) vx::pump(); }
    vx::pump(); vx::advance(1000);
    pl.collect();
    for (auto &m : pl.r.out) { std::vector<Val> v; dec_all(m.data, v); string s; if (m.type == 20|| m.type==18) for (auto &x : v) s += vstr(x) + " "; vx::note("  %s %s", mstr(m).c_str(), s.c_str()); vx::observe(mstr(m)); }
    if (root == 2) vx::note("log: %s", vx::errlog().c_str());
}
VX_SCENARIOS({ "smoke", roots, run, "smoke" })
