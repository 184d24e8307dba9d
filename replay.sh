#!/bin/bash
# replay.sh FILE: rebuild from /repo's working tree and replay one violation (exit 1: reproduced, 0: held)
cd "$(dirname "$0")" && exec python3 - "$1" <<'P'
import sys, subprocess, re, build
v = re.search(r"^variant (\d) (\d)", open(sys.argv[1]).read(), re.M); b = build.build()
sys.exit(subprocess.call([b[v.group(1) + ("q" if v.group(2) == "2" else "c")], "replay", sys.argv[1]]))
P
