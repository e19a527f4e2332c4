#!/usr/bin/env python3
# Prints the violation of each replay file with module offsets turned into source lines.
import glob, json, re, subprocess, sys
for f in sys.argv[1:] or sorted(glob.glob("/verif/replays/*.json")):
    j = json.load(open(f))
    print("==", f, j["label"], j["vector"]); print(j["notes"][-300:].strip())
    for l in j["message"].splitlines():
        m = re.search(r"(#\d+) 0x\w+ +\((/verif/build/(\w+)/\S+\.so)\+0x(\w+)\)", l)
        if m:
            o = subprocess.run(["addr2line", "-f", "-e", m[2], hex(int(m[4], 16) - 1)], stdout=subprocess.PIPE, text=True).stdout.split("\n")
            print("  ", m[1], o[0], re.sub(r".*/modules/", "", o[1]))
        elif "ERROR" in l or "READ" in l or "WRITE" in l or not re.search(r"#\d|WARNING|==|ABORT|Hint|SUMMARY|provide", l):
            print("  ", l[:220])
