def R(scen, run, conf, **k):
    return dict(scen=scen, run=run, conf=conf, **k)


CHECKS = {
    "P01": dict(runs=[R("p01", r, "p01.conf", glue=["rec"]) for r in ("interleave", "cuts", "seq", "aggregate", "e2e")]),
    "P02": dict(runs=[R("p02", r, "p02.conf") for r in ("ring", "stall", "two", "writes")]),
    "P06": dict(runs=[R("p06", r, "p06.conf", variant="asan") for r in ("order", "odd", "bytes", "limits")]),
    "P08": dict(runs=[R("p08", r, "p08.conf") for r in ("queue", "long", "timeout")]),
    "P05": dict(runs=[R("p05", "hist", "p05.conf")]),
    "P21": dict(runs=[R("p21", r, "p21.conf", glue=["tool"]) for r in ("ops", "perm")]),
    "P22": dict(runs=[R("p22", r, "p22.conf", glue=["tool"]) for r in ("timers", "buffers", "pools", "owners")] + [R("p22", "sizes", "p22.conf", glue=["tool"], variant="asan")]),
    "P12": dict(runs=[R("p12", r, "p12.conf", variant="asan") for r in ("gate", "names", "stream", "meta")]),
    "P10": dict(runs=[R("p10", r, "p10.conf", variant="asan") for r in ("retry", "life", "two", "flv", "flverr")]),
    "P20": dict(runs=[R("p20", r, "p20.conf") for r in ("content", "manual", "fault", "crash", "refused")] + [R("p20", "names", "p20.conf", variant="asan")]),
    "P27": dict(runs=[R("p27", r, "p27.conf") for r in ("select", "pause", "record", "redirect")]),
    "P28": dict(runs=[R("p28", r, "p28.conf") for r in ("hist", "codec", "req")] + [R("p28", "text", "p28.conf", variant="asan")]),
    "P19": dict(runs=[R("p19", r, "p19.conf", glue=["hls"]) for r in ("content", "fault", "refused", "size", "clean")] + [R("p19", "names", "p19.conf", glue=["hls"], variant="asan")]),
    "P29": dict(runs=[R("p29", r, "p29.conf", glue=["hls"]) for r in ("mux", "clean")] + [R("p29", r, "p29.conf", glue=["hls"], variant="asan") for r in ("align", "sps", "aac", "http", "bytes", "size")]),
    "P17": dict(runs=[R("p17", r, "p17.conf", glue=["hls"]) for r in ("content", "fault", "refused")] + [R("p17", "clean", "p17.conf", glue=["hls"])] + [R("p17", r, "p17.conf", glue=["hls"], variant="asan") for r in ("size", "malf", "restore", "names")]),
    "P32": dict(runs=[R("p32", r, "p32.conf") for r in ("content", "fault", "refused")] + [R("p32", r, "p32.conf", variant="asan") for r in ("size", "malf", "names", "gate")]),
    "P09": dict(runs=[R("p09", r, "p09.conf", glue=["amf"], variant="asan") for r in ("objects", "values", "write")]),
    "P25": dict(runs=[R("p25", r, "p25.conf", glue=["parse"], variant="asan") for r in ("url", "text", "port", "addr", "multi", "args")]),
    "P15": dict(runs=[R("p15", r, "p15.conf") for r in ("same", "press", "flags")] + [R("p15", r, "p15.conf", variant="asan") for r in ("url", "len", "life")] + [R("p15", r, "p15.conf", variant="asan", label=r + "-asan", tiers=("thorough",)) for r in ("same", "press")]),
    "P03": dict(runs=[R("p03", r, "p03.conf") for r in ("digest", "seg", "client")] + [R("p03", r, "p03.conf", variant="asan") for r in ("bad", "many", "proxy")]),
    "P11": dict(runs=[R("p11", "zone", "basic.conf", glue=["zone", "workers"]), R("p11", "workers", "p11.conf", glue=["zone", "workers"])]),
    "P13": dict(runs=[R("p13", "rules", "p13.conf"), R("p13", "limit", "p13b.conf")]),
    "P16": dict(runs=[R("p16", r, "p16.conf") for r in ("same", "press")] + [R("p16", r, "p16.conf", variant="asan") for r in ("size", "malf", "url", "life")]),
    "P04": dict(runs=[R("p04", r, "p04.conf") for r in ("hist", "long", "full")] + [R("p04", "slow", "p04.conf"), R("p04", "slow", "p04.conf", variant="asan", label="slow-asan", tiers=("thorough",))]),
}

NOT_APPLICABLE = {}
