// P06: whatever a peer sends, the server stays up, memory stays intact and other sessions are not touched.
#include "rtmp.h"
using namespace rt;
static Client *hpub, *hpl; static uint32_t hts; static int hn;
static void healthy_up()
{
    if (hpub && !hpub->c->closed && !hpl->c->closed && hts < 100000000) return;
    if (hpub) vx::fail("the healthy session was closed");
    hpub = new Client; hpub->name = "healthy publisher"; hpl = new Client; hpl->name = "healthy player";
    if (!hpub->publisher("h", "h")) vx::fail("healthy publish refused");
    if (!hpl->player("h", "h")) vx::fail("healthy play refused");
    hpub->send(video(0, avc_seq()), 6); hpub->send(audio(0, aac_seq()), 4); hpub->send(video(0, avc_key("k")), 6); vx::pump();
    if (hpl->av().empty()) vx::fail("healthy player gets nothing");
}
static void healthy_check(const string &what)
{
    hts += 40; string d = avc_key("x" + std::to_string(hn++)); size_t n = hpl->av().size();
    hpub->send(video(hts, d), 6); vx::pump();
    if (hpub->c->closed || hpl->c->closed) vx::fail("%s: the healthy session was closed", what.c_str());
    auto v = hpl->av(); if (v.size() != n + 1 || v.back().data != d || v.back().ts != hts) vx::fail("%s: the healthy player did not get its frame", what.c_str());
    hpl->r.out.clear(); hpl->read_pos = 0;
}
struct Sym { const char *name; std::function<void(Client &)> f; };
static Msg mk(int type, const string &d, uint32_t sid = 0, uint32_t ts = 0) { Msg m; m.type = type; m.data = d; m.sid = sid; m.ts = ts; return m; }
static string cmdb(const string &n, std::vector<Val> a, double tx = 5) { string o = enc(Str(n)) + enc(N(tx)); for (auto &x : a) o += enc(x); return o; }
static string APP = "a0";
static std::vector<Sym> syms(bool all)
{
    std::vector<Sym> s;
    auto add = [&](const char *n, std::function<void(Client &)> f) { s.push_back({ n, f }); };
    auto raw = [&](const char *n, int type, const string &d, uint32_t sid = 1, uint32_t ts = 0, int cs = 7) { s.push_back({ n, [=](Client &c) { c.send(mk(type, d, sid, ts), cs); } }); };
    add("connect", [](Client &c) { c.cmd("connect", { c.connect_obj(APP) }); });
    add("createStream", [](Client &c) { c.cmd("createStream", { Null() }); });
    add("publish", [](Client &c) { c.publish("s"); });
    add("play", [](Client &c) { c.play("s"); });
    add("deleteStream", [](Client &c) { c.cmd("deleteStream", { Null(), N(1) }); });
    add("closeStream", [](Client &c) { c.cmd("closeStream", { Null(), N(1) }); });
    raw("vhead", 9, avc_seq(), 1, 10, 6); raw("vkey", 9, avc_key("k"), 1, 20, 6); raw("vinter", 9, avc_inter("i"), 1, 60, 6);
    raw("ahead", 8, aac_seq(), 1, 10, 4); raw("aac", 8, aac_raw("aaaaaaaa"), 1, 40, 4);
    raw("meta", 18, meta().data, 1, 0, 5);
    raw("late key", 9, avc_key("late"), 1, 3000, 6);
    add("set chunk size 1", [](Client &c) { c.set_chunk(1); });
    add("pause", [](Client &c) { c.cmd("pause", { Null(), B(true), N(0) }, 1); });
    raw("stream begin", 4, be(0, 2) + be(1, 4), 0, 0, 2); raw("stream eof", 4, be(1, 2) + be(1, 4), 0, 0, 2);
    raw("vhead2", 9, string("\x17\0\0\0\0\x01\x64\0\x1f\xff\xe1\0\x19\x67\x64\0\x1f\xac\xd9\x40\x50\x05\xbb\x01\x10\0\0\x03\0\x10\0\0\x03\x03\xc0\xf1\x83\x19\x60\x01\0\x06\x68\xeb\xe3\xcb\x22\xc0", 49), 1, 30, 6);
    if (!all) return s;
    add("connect no tcUrl", [](Client &c) { c.cmd("connect", { Obj({ { "app", Str(APP) } }) }); });
    add("connect empty app", [](Client &c) { c.cmd("connect", { Obj({ { "app", Str("") }, { "tcUrl", Str("") } }) }); });
    add("connect odd tcUrl", [](Client &c) { c.cmd("connect", { Obj({ { "app", Str(APP + "?x=1/y") }, { "tcUrl", Str("rtmp:/x?") } }) }); });
    add("connect odd tcUrl2", [](Client &c) { c.cmd("connect", { Obj({ { "app", Str(APP) }, { "tcUrl", Str("://:?") } }) }); });
    add("connect long tcUrl", [](Client &c) { c.cmd("connect", { Obj({ { "app", Str(APP) }, { "tcUrl", Str("rtmp://" + string(2000, 'h') + "/") } }) }); });
    add("connect long app", [](Client &c) { c.cmd("connect", { Obj({ { "app", Str(string(3000, 'a')) }, { "tcUrl", Str("rtmp://h/x") } }) }); });
    add("connect unknown app", [](Client &c) { c.cmd("connect", { c.connect_obj("nope") }); });
    add("connect nothing", [](Client &c) { c.cmd("connect", {}); });
    add("publish long", [](Client &c) { c.publish(string(1500, 'n')); });
    add("publish 255", [](Client &c) { c.publish(string(255, 'n')); });
    add("publish 200", [](Client &c) { c.publish(string(200, 'n')); });
    add("publish empty", [](Client &c) { c.publish(""); });
    add("publish ../x", [](Client &c) { c.publish("../../x?a=b&c"); });
    add("publish nothing", [](Client &c) { c.cmd("publish", {}, 1); });
    add("publish type", [](Client &c) { c.cmd("publish", { Null(), N(3), Obj({ { "a", N(1) } }) }, 1); });
    add("play long", [](Client &c) { c.play(string(1500, 'n')); });
    add("play args", [](Client &c) { c.cmd("play", { Null(), Str("s?"), N(-5), N(1e300), B(true) }, 1); });
    add("play nothing", [](Client &c) { c.cmd("play", {}, 1); });
    add("play2", [](Client &c) { c.cmd("play2", { Null(), Obj({ { "start", N(1) }, { "streamName", Str("s") } }) }, 1); });
    add("seek", [](Client &c) { c.cmd("seek", { Null(), N(1e18) }, 1); });
    add("unpause", [](Client &c) { c.cmd("pause", { Null(), B(false), N(-1) }, 1); });
    add("_result", [](Client &c) { c.cmd("_result", { Null(), N(1) }); });
    add("_error", [](Client &c) { c.cmd("_error", { Null(), Obj({}) }); });
    add("onStatus", [](Client &c) { c.cmd("onStatus", { Null(), Obj({ { "level", Str("error") }, { "code", Str("NetStream.Publish.BadName") }, { "description", Str(string(600, 'd')) } }) }, 1); });
    add("releaseStream", [](Client &c) { c.cmd("releaseStream", { Null(), Str("s") }); });
    add("unknown command", [](Client &c) { c.cmd(string(300, 'q'), { Null() }); });
    add("FCPublish", [](Client &c) { c.cmd("FCPublish", { Null(), Str("s") }); });
    // truncated media
    for (size_t n : { 1, 2, 4, 5, 6, 8, 10, 11, 12, 13, 15, 20, 27 }) { static std::vector<string> keep; keep.push_back("avc header cut to " + std::to_string(n)); s.push_back({ strdup(keep.back().c_str()), [=](Client &c) { c.send(mk(9, avc_seq().substr(0, n), 1, 10), 6); } }); }
    for (size_t n : { 1, 2, 3 }) s.push_back({ strdup(("aac header cut to " + std::to_string(n)).c_str()), [=](Client &c) { c.send(mk(8, aac_seq().substr(0, n), 1, 10), 4); } });
    for (size_t n : { 1, 2, 4, 5, 7, 8, 9 }) s.push_back({ strdup(("key frame cut to " + std::to_string(n)).c_str()), [=](Client &c) { c.send(mk(9, avc_key("kk").substr(0, n), 1, 50), 6); } });
    raw("key nal too long", 9, string("\x17\x01\0\0\0\x7f\xff\xff\xff\x65zz", 12), 1, 70, 6);
    raw("key nal len 0", 9, string("\x17\x01\0\0\0\0\0\0\0\0\0\0\x02\x65z", 15), 1, 70, 6);
    raw("key nal big", 9, string("\x17\x01\0\0\0", 5) + nal(5, string(70000, 'b')), 1, 80, 6);
    raw("many nals", 9, [] { string d("\x27\x01\0\0\0", 5); for (int i = 0; i < 300; i++) d += nal(1, "a"); return d; }(), 1, 90, 6);
    raw("hevc header", 9, string("\x1c\0\0\0\0\x01\x01\x60", 8), 1, 10, 6);
    raw("hevc frame", 9, string("\x1c\x01\0\0\0\0\0\0\x02\x26\x01", 11), 1, 12, 6);
    { // HEVC and AVC headers whose lengths and counts are not what follows
        auto hv = [](size_t len, const string &sps, int arrays, int n) { return string("\x1c\0\0\0\0\x01\x01\x60\0\0\0\x90\0\0\0\0\0\x5d\xf0\0\xfc\xfd\xf8\xf8\0\0\x0f", 27) + (char) arrays + string("\x21", 1) + be(n, 2) + be(len, 2) + sps; };
        string sps = string("\x42\x01\x01\x01\x60\0\0\3\0\x90\0\0\3\0\0\3\0\x5d\xa0\x02\x80\x80\x2d\x16", 24);
        for (size_t len : { 0, 1, 2, 3, 24, 25, 4095, 4096, 4097, 4099, 65535 }) for (size_t have : { 0, 1, 2, 3, 24, 4098, 9000 }) { string d = sps + string(9000, '\x55'); s.push_back({ strdup(("hevc header sps " + std::to_string(len) + " of " + std::to_string(have)).c_str()), [=](Client &c) { c.send(mk(9, hv(len, d.substr(0, have), 1, 1), 1, 10), 6); } }); }
        raw("hevc header many arrays", 9, hv(24, sps, 255, 1), 1, 10, 6); raw("hevc header many sps", 9, hv(24, sps, 1, 65535), 1, 10, 6); raw("hevc header much of all", 9, hv(65535, sps, 255, 65535), 1, 10, 6);
        raw("hevc header sps ends in zeros", 9, hv(8, string("\x42\x01\x01\x01\x60\0\0\3", 8), 1, 1), 1, 10, 6); raw("hevc header 7 sub layers", 9, hv(24, string("\x42\x01\x0f\xff", 4) + string(20, '\xff'), 1, 1), 1, 10, 6);
        for (int z : { 7, 20, 31, 32, 40, 62, 63, 64, 65, 100 }) { string d, b;
            // id 0, frame number bits 0, order type 1 = "1 1 010", one flag, two offsets, then the count
            string pre = "1" "1" "010" "0" "1" "1"; string all = pre; for (int i = 0; i < z; i++) all += '0'; all += '1'; all += string((size_t) z, '1'); while (all.size() % 8) all += '0'; b = ""; for (size_t i = 0; i < all.size(); i += 8) { int v = 0; for (int j = 0; j < 8; j++) v = v * 2 + (all[i + (size_t) j] == '1'); b += (char) v; }
            d = string("\x67\x42\xc0\x1e", 4) + b; s.push_back({ strdup(("avc header with 2^" + std::to_string(z) + " reference frames").c_str()), [=](Client &c) { c.send(mk(9, string("\x17\0\0\0\0\x01\x42\xc0\x1e\xff\xe1", 11) + be(d.size(), 2) + d, 1, 10), 6); } }); }
    }
    raw("flv1 frame", 9, string("\x12\x00\x00", 3), 1, 12, 6); raw("video info frame", 9, string("\x57\x00", 2), 1, 12, 6); raw("frame type 3", 9, string("\x37\x01\0\0\0\0", 6), 1, 12, 6);
    raw("avc end", 9, string("\x17\x02\0\0\0", 5), 1, 95, 6);
    raw("mp3", 8, string("\x2f\xff\xfb\x90\x64", 5), 1, 20, 4); raw("speex", 8, string("\xb2zz", 3), 1, 20, 4); raw("aac empty", 8, string("\xaf\x01", 2), 1, 25, 4); raw("aac huge", 8, string("\xaf\x01", 2) + string(20000, 'a'), 1, 25, 4);
    raw("aac header objtype 31", 8, string("\xaf\0\xff\xff\xff\xff", 6), 1, 10, 4); raw("aac header sr 15", 8, string("\xaf\0\x17\x80\0\0\0", 7), 1, 10, 4);
    raw("avc header many sps", 9, string("\x17\0\0\0\0\x01\x42\xc0\x1e\xff\xff\0\x01g\0\x01g\0\x01g\0\x01g", 23), 1, 10, 6);
    raw("avc header sps too long", 9, string("\x17\0\0\0\0\x01\x42\xc0\x1e\xff\xe1\xff\xff\x67\x42", 15), 1, 10, 6);
    raw("avc header pps too long", 9, string("\x17\0\0\0\0\x01\x42\xc0\x1e\xff\xe1\0\x02\x67\x42\x01\x7f\xff\x68", 19), 1, 10, 6);
    raw("avc header no sps", 9, string("\x17\0\0\0\0\x01\x42\xc0\x1e\xff\xe0\0", 12), 1, 10, 6);
    raw("avc header all ff", 9, string("\x17\0\0\0\0", 5) + string(60, '\xff'), 1, 10, 6);
    raw("avc header zeros", 9, string("\x17\0\0\0\0\x01\x42\xc0\x1e\xff\xe1\0\x40\x67", 14) + string(63, '\0') + string("\x01\0\x01\x68", 4), 1, 10, 6);
    raw("ts back", 9, avc_key("back"), 1, 0, 6); raw("ts huge", 9, avc_key("huge"), 1, 0xfffffff0u, 6); raw("aac ts huge", 8, aac_raw("huge"), 1, 0xffffffffu, 4);
    raw("empty video", 9, "", 1, 10, 6); raw("empty audio", 8, "", 1, 10, 4);
    raw("empty meta", 18, "", 1, 0, 5); raw("meta only name", 18, enc(Str("@setDataFrame")), 1, 0, 5); raw("onMetaData number", 18, enc(Str("onMetaData")) + enc(N(1)), 1, 0, 5);
    raw("meta cut", 18, meta().data.substr(0, 40), 1, 0, 5); raw("meta big", 18, enc(Str("@setDataFrame")) + enc(Str("onMetaData")) + enc(Obj({ { string(200, 'k'), Str(string(30000, 'v')) } })), 1, 0, 5);
    raw("meta strings", 18, enc(Str("@setDataFrame")) + enc(Str("onMetaData")) + enc(Ecma({ { "width", Str("x") }, { "videocodecid", Str(string(200, 'c')) }, { "audiocodecid", Str(string(99, 'c')) }, { "profile", Str(string(64, 'p')) }, { "level", Str(string(64, 'l')) } })), 1, 0, 5);
    raw("onTextData", 18, enc(Str("onTextData")) + enc(Obj({ { "text", Str("x") } })), 1, 0, 5);
    raw("onCuePoint", 18, enc(Str("onCuePoint")), 1, 0, 5);
    raw("amf bad marker", 20, string("\x0e\x0d\x42", 3), 0, 0, 3); raw("amf cut number", 20, string("\0\x3f", 2), 0, 0, 3); raw("amf cut string", 20, string("\x02\0\x20xx", 5), 0, 0, 3); raw("amf long name", 20, enc(Str(string(500, 'n'))), 0, 0, 3);
    raw("amf empty", 20, "", 0, 0, 3); raw("amf name only", 20, enc(Str("connect")), 0, 0, 3);
    raw("amf nested", 20, [] { string d = enc(Str("connect")) + enc(N(1)); for (int i = 0; i < 20000; i++) d += string("\x03\0\1a", 4); return d; }(), 0, 0, 3);
    raw("amf nested array", 20, [] { string d = enc(Str("connect")) + enc(N(1)); for (int i = 0; i < 20000; i++) d += string("\x0a\0\0\0\1", 5); return d; }(), 0, 0, 3);
    raw("amf array huge", 20, enc(Str("connect")) + enc(N(1)) + string("\x0a\xff\xff\xff\xff", 5), 0, 0, 3);
    raw("amf3 command", 17, string("\0", 1) + cmdb("connect", { Obj({ { "app", Str("a0") } }) }), 0, 0, 3); raw("amf3 empty", 17, "", 0, 0, 3); raw("amf3 one byte", 17, string("\x11", 1), 0, 0, 3); raw("amf3 meta", 15, string("\0", 1) + meta().data, 1, 0, 5);
    raw("shared object", 19, string("\0\1s\0\0\0\0", 7), 0, 0, 3); raw("amf3 shared", 16, string("\0", 1), 0, 0, 3);
    raw("chunk size 0", 1, be(0, 4), 0, 0, 2); raw("chunk size huge", 1, be(0x7fffffff, 4), 0, 0, 2); raw("chunk size neg", 1, be(0xffffffff, 4), 0, 0, 2); raw("chunk size short", 1, be(1, 2), 0, 0, 2); raw("chunk size empty", 1, "", 0, 0, 2);
    add("chunk size 65536", [](Client &c) { c.set_chunk(65536); });
    raw("abort", 2, be(6, 4), 0, 0, 2); raw("abort big", 2, be(0xffffffff, 4), 0, 0, 2); raw("ack", 3, be(0xffffffff, 4), 0, 0, 2); raw("ack size 0", 5, be(0, 4), 0, 0, 2); raw("ack size 1", 5, be(1, 4), 0, 0, 2); raw("bandwidth", 6, be(1, 4) + "\x02", 0, 0, 2); raw("bandwidth short", 6, be(1, 4), 0, 0, 2);
    for (int e : { 0, 1, 2, 3, 4, 6, 7, 31, 32, 65535 }) { s.push_back({ strdup(("user event " + std::to_string(e)).c_str()), [=](Client &c) { c.send(mk(4, be(e, 2) + be(1, 4) + be(1000, 4)), 2); } }); }
    raw("user short", 4, be(3, 2) + be(1, 4), 0, 0, 2); raw("user empty", 4, "", 0, 0, 2); raw("user 1", 4, string("\0", 1), 0, 0, 2);
    raw("type 0", 0, "x", 0, 0, 2); raw("type 7", 7, "x", 0, 0, 2); raw("type 23", 23, "xyz", 0, 0, 2); raw("type 26", 26, avc_key("z"), 0, 0, 2); raw("type 27", 27, "xyzxyzxyz", 0, 0, 2); raw("type 29", 29, "xyz", 0, 0, 2); raw("type 30", 30, "xyz", 0, 0, 2); raw("type 31", 31, "xyz", 0, 0, 2); raw("type 255", 255, "xyz", 0, 0, 2);
    raw("aggregate empty", 22, "", 1, 0, 6); raw("aggregate short", 22, string("\x09\0\0", 3), 1, 0, 6); raw("aggregate overlong", 22, string("\x09\xff\xff\xff\0\0\0\0\0\0\0", 11) + "zz", 1, 0, 6); raw("aggregate zero", 22, string("\x09\0\0\0\0\0\0\0\0\0\0\0\0\0\x0b", 15), 1, 0, 6);
    raw("aggregate nested", 22, string("\x16\0\0\x0f\0\0\0\0\0\0\0", 11) + string("\x09\0\0\0\0\0\0\0\0\0\0\0\0\0\x0b", 15) + be(26, 4), 1, 0, 6); raw("aggregate type 255", 22, string("\xff\0\0\1\0\0\0\0\0\0\0z\0\0\0\x0c", 16), 1, 0, 6);
    for (int cs : { 31, 32, 33, 63, 64, 319 }) s.push_back({ strdup(("csid " + std::to_string(cs)).c_str()), [=](Client &c) { c.send(mk(9, avc_key("x"), 1, 5), cs); vx::pump(); if (cs >= 64 && !c.c->closed) vx::fail("a message on chunk stream %d was accepted", cs); } });
    s.push_back({ "message of max size", [](Client &c) { c.send(mk(9, avc_key(string(131072 - 10, 'b')), 1, 5), 6); } });
    add("csid 65599", [](Client &c) { c.send(mk(9, avc_key("x"), 1, 5), 65599); });
    add("message too big", [](Client &c) { c.c->send(basic(0, 6) + be(0, 3) + be(0xffffff, 3) + "\x09" + le32(1) + string(100, 'x')); vx::pump(); if (!c.c->closed) vx::fail("a message longer than max_message was accepted"); });
    add("type 3 first", [](Client &c) { c.c->send(basic(3, 40) + string(20, 'x')); });
    add("type 1 first", [](Client &c) { c.c->send(basic(1, 41) + be(0, 3) + be(4, 3) + "\x03" + be(1, 4)); });
    add("reheader inside message", [](Client &c) { c.c->send(basic(0, 6) + be(0, 3) + be(300, 3) + "\x09" + le32(1) + string(c.w.chunk < 300 ? c.w.chunk : 300, 'x') + basic(0, 6) + be(0, 3) + be(10, 3) + "\x08" + le32(1) + string(10, 'y')); });
    add("reheader shorter", [](Client &c) { c.c->send(basic(0, 6) + be(0, 3) + be(300, 3) + "\x09" + le32(1) + string(c.w.chunk < 300 ? c.w.chunk : 300, 'x') + basic(1, 6) + be(0, 3) + be(5, 3) + "\x09" + string(5, 'y')); });
    return s;
}
// where the session is when the odd input comes
static const char *STN[] = { "handshaken", "connected", "stream created", "publishing", "publishing media", "playing", "with a publisher of the same name" };
static Client *prepare(int st, Client *&other)
{
    auto *c = new Client; c->name = "peer"; other = nullptr;
    if (st >= 5) { other = new Client; other->name = "other publisher"; if (!other->publisher("s", APP)) vx::fail("publisher refused"); other->send(video(0, avc_seq()), 6); other->send(audio(0, aac_seq()), 4); other->send(video(0, avc_key("k")), 6); other->send(audio(10, aac_raw("a")), 4); vx::pump(); }
    c->open(); if (!c->handshake()) vx::fail("handshake failed");
    if (st >= 1 && !c->connect(APP)) vx::fail("connect failed");
    if (st >= 2 && !c->create_stream()) vx::fail("createStream failed");
    if (st == 3 || st == 4) { c->publish("s"); vx::pump(); if (!c->saw_code("NetStream.Publish.Start")) vx::fail("publish refused"); }
    if (st == 4) { c->send(meta(), 5); c->send(video(0, avc_seq()), 6); c->send(audio(0, aac_seq()), 4); c->send(video(0, avc_key("k")), 6); c->send(audio(20, aac_raw("aaaaaaaaaaaa")), 4); vx::pump(); }
    if (st == 5) { c->play("s"); vx::pump(); if (!c->saw_code("NetStream.Play.Start")) vx::fail("play refused"); }
    return c;
}
static void finish(Client *c, Client *o, int how, const string &what)
{
    // a player of what was published, too, while the odd session is there
    Client *p = nullptr;
    if (how >= 2) { p = new Client; p->name = "late player"; if (p->up(APP)) p->play("s"); vx::pump(); }
    if (!c->c->closed) { if (how & 1) c->c->reset(); else c->c->fin(); }
    vx::pump();
    if (!c->c->closed) vx::fail("%s: the connection was not closed after the peer closed it", what.c_str());
    if (o) { o->send(video(4000, avc_key("o")), 6); vx::pump(); if (o->c->closed) vx::fail("%s: the other publisher was closed", what.c_str()); o->c->fin(); vx::pump(); delete o; }
    if (p) { if (!p->c->closed) p->c->fin(); vx::pump(); delete p; }
    delete c;
    healthy_check(what);
}
static std::vector<Sym> S;
static int seq_roots() { return 7 * 2 * 16; }
static void seq_run(int root)
{
    int st = root % 7; APP = root / 7 % 2 ? "a1" : "a0"; int part = root / 14; S = syms(true); healthy_up();
    auto core = syms(false); int nc = (int) core.size();
    vx::batch([&] {
        // odd input, then up to two (three) ordinary steps; the reverse order is covered by the prepared states
        int i = vx::choose((int) (S.size() + 15 - (size_t) part) / 16) * 16 + part, k = vx::choose(vx::tier_pick(2, 3)); string what = string(APP) + " " + STN[st] + ": " + S[i].name;
        std::vector<int> rest; for (int j = 0; j < k; j++) { rest.push_back(vx::choose(nc)); what += string(", ") + core[rest.back()].name; }
        int how = vx::choose(vx::tier_pick(2, 4)); if (how == 1 && !vx::thorough()) how = 3;
        vx::note("%s", what.c_str());
        Client *o; Client *c = prepare(st, o);
        if (!c->c->closed) { S[i].f(*c); vx::pump(); }
        for (int j : rest) if (!c->c->closed) { core[j].f(*c); vx::pump(); }
        vx::observe_u64(c->c->closed); 
        finish(c, o, how, what);
    });
}
// every order of ordinary protocol steps from the handshake on
static int order_roots() { return 2 * 18; }
static void order_run(int root)
{
    APP = root % 2 ? "a1" : "a0"; auto core = syms(false); int nc = (int) core.size(), f = root / 2; healthy_up();
    if (f >= nc) vx::prune();
    vx::batch([&] {
        int k = vx::tier_pick(3, 4), st = vx::choose(4); st = st == 3 ? 4 : st == 2 ? 5 : st * 2;
        string what = string(APP) + " " + STN[st] + ": " + core[f].name; std::vector<int> w{ f };
        for (int j = 1; j < k; j++) { w.push_back(vx::choose(nc)); what += string(", ") + core[w.back()].name; }
        vx::note("%s", what.c_str());
        Client *o; Client *c = prepare(st, o);
        for (int j : w) if (!c->c->closed) { core[j].f(*c); vx::pump(); }
        vx::observe_u64(c->c->closed);
        finish(c, o, 0, what);
    });
}
// a legal session with one byte changed, or cut short, everywhere
static string session_bytes(bool play, size_t cs)
{
    Client c; string b;
    b += c.cmd_bytes("connect", { c.connect_obj(APP) });
    if (cs != 128) { Msg m; m.type = 1; m.data = be(cs, 4); b += c.w.msg(m, 2); c.w.chunk = cs; }
    b += c.cmd_bytes("createStream", { Null() });
    if (play) { b += c.cmd_bytes("play", { Null(), Str("s"), N(-2000) }, 1, 4); Msg m; m.type = 4; m.data = be(3, 2) + be(1, 4) + be(1000, 4); b += c.w.msg(m, 2); b += c.cmd_bytes("pause", { Null(), B(true), N(0) }, 1, 4); return b; }
    b += c.cmd_bytes("publish", { Null(), Str("s"), Str("live") }, 1, 4);
    b += c.w.msg(meta(), 5); b += c.w.msg(video(0, avc_seq()), 6); b += c.w.msg(audio(0, aac_seq()), 4); b += c.w.msg(video(40, avc_key("key")), 6, 1); b += c.w.msg(audio(46, aac_raw("audio")), 4, 1);
    b += c.w.msg(video(80, avc_inter("int")), 6, 1); b += c.w.msg(video(2080, avc_key("k2")), 6, 1); b += c.cmd_bytes("deleteStream", { Null(), N(1) });
    return b;
}
static int bytes_roots() { return 2 * 2 * 8; }
static void bytes_run(int root)
{
    bool play = root % 2; APP = root / 2 % 2 ? "a1" : "a0"; int part = root / 4; healthy_up();
    string base = session_bytes(play, play ? 128 : 96);
    static const int val[] = { -1, -2, 0x00, 0x01, 0x7f, 0x80, 0xff, 0x03, 0x05, 0x09, 0x0a, 0x0c, 0x10, 0x14, 0x16, 0x40, 0xc0 };
    vx::batch([&] {
        int n = (int) base.size(), pos = vx::choose((n + 7 - part) / 8) * 8 + part, vi = vx::choose(vx::tier_pick(17, 256)); string b = base;
        char what[100]; int v = vx::thorough() ? (vi ? (unsigned char) b[pos] ^ vi : -2) : val[vi] == -1 ? (unsigned char) b[pos] ^ 1 : val[vi];
        snprintf(what, sizeof what, "%s %s session byte %d %s %d", APP.c_str(), play ? "play" : "publish", pos, v == -2 ? "is the last" : "is", v);
        vx::note("%s", what);
        if (v == -2) b.resize(pos); else b[pos] = (char) v;
        auto *c = new Client; c->name = "peer"; c->open(); if (!c->handshake()) vx::fail("handshake failed");
        c->c->send(b); vx::pump(); vx::observe_u64(c->c->closed * 1000 + c->c->tx_total);
        if (!c->c->closed) c->c->fin(); vx::pump();
        if (!c->c->closed) vx::fail("%s: the connection was not closed after the peer closed it", what);
        delete c; healthy_check(what);
    });
}
// the two limits on what a chunk header may announce, in every form a header can take
static int limit_roots() { return 7 * 2; }
static void limit_run(int root)
{
    int st = root % 7; APP = root / 7 % 2 ? "a1" : "a0"; healthy_up();
    static const uint32_t len[] = { 4, 131071, 131072, 131073, 0x20100, 0x800000, 0xffffff }, ts[] = { 0, 5, 0xfffffe, 0xffffff, 0x1000005, 0xffffffff };
    static const int cs[] = { 3, 6, 40, 63, 64, 65, 66, 127, 128, 319, 320, 16448, 65599 }, ty[] = { 9, 8, 18, 20, 22, 1, 15 };
    vx::batch([&] {
        int before = vx::choose(3), fmt = before ? vx::choose(4) : 0; uint32_t l = len[vx::choose(7)], t = ts[vx::choose(6)]; int c0 = cs[vx::choose(13)], type = ty[vx::choose(vx::tier_pick(3, 7))];
        int form = c0 < 64 ? 0 : c0 < 320 ? vx::choose(2) + 1 : 2, more = vx::choose(vx::tier_pick(2, 3)), split = vx::choose(vx::tier_pick(1, 3));
        if (before && c0 >= 64) return;                // the message before would be refused
        if ((fmt == 2 || fmt == 3) && l != 4) return;  // these repeat the length
        if (fmt == 3 && t) return;
        char what[200]; snprintf(what, sizeof what, "%s %s: %s, then a chunk fmt %d csid %d (%d byte form) type %d length %u timestamp %u with %d data bytes", APP.c_str(), STN[st], before == 0 ? "nothing" : before == 1 ? "a message" : "a message with extended timestamp", fmt, c0, form + 1, type, l, t, more);
        vx::note("%s", what);
        Client *o; Client *c = prepare(st, o); uint32_t bt = before == 2 ? 0x1000001 : 1;
        auto h = [&](int f, uint32_t l2, uint32_t t2, int ty2) { string b = form == 0 ? string(1, (char) (f << 6 | c0)) : form == 1 ? string{ (char) (f << 6), (char) (c0 - 64) } : string{ (char) (f << 6 | 1), (char) ((c0 - 64) & 255), (char) ((c0 - 64) >> 8) };
            if (f < 3) b += be(t2 < 0xffffff ? t2 : 0xffffff, 3); if (f < 2) b += be(l2, 3) + string(1, (char) ty2); if (f < 1) b += le32(1); if (f < 3 && t2 >= 0xffffff) b += be(t2, 4); return b; };
        if (before) { string d = type == 20 ? string("\2\0\1x", 4) : type == 1 ? be(128, 4) : string("\xaf\1ab", 4); c->c->send(h(0, 4, bt, type) + d); vx::pump(); if (c->c->closed) { finish(c, o, 0, what); return; } }
        string b = h(fmt, l, t, type); int n = more == 0 ? 0 : more == 1 ? 1 : 3;
        if (split) { size_t k = split == 1 ? 1 : b.size() - 1; c->c->send(b.substr(0, k)); vx::pump(); c->c->send(b.substr(k) + string((size_t) n, 'q')); } else c->c->send(b + string((size_t) n, 'q'));
        vx::pump();
        bool bad = c0 >= 64 || l > 131072; vx::observe_u64(bad * 2 + c->c->closed);
        if (bad && !c->c->closed) vx::fail("%s: the connection was not closed", what);
        if (!bad && c->c->closed) vx::fail("%s: the connection was closed", what);
        finish(c, o, 0, what);
    });
}
VX_SCENARIOS(
    { "limits", limit_roots, limit_run, "2 applications x 7 session states x every header form: chunk streams around 64, 319 and 65599 in each encoding, 7 lengths around the maximum, 6 timestamps around the extended one, after no message, a message, a message with extended timestamp on the same chunk stream" },
    { "order", order_roots, order_run, "2 applications (plain; every output module on) x 4 session states x every sequence of 3 (4) steps over 18 ordinary RTMP messages, legal in order or not" },
    { "odd", seq_roots, seq_run, "2 applications x 7 session states x about 150 malformed or unusual messages, followed by every sequence of up to 1 (2) of 18 ordinary messages, then FIN or reset, with and without a player joining first" },
    { "bytes", bytes_roots, bytes_run, "a publish and a play session on 2 applications: every byte set to each of 15 (255) other values, and the session cut after every byte" })
