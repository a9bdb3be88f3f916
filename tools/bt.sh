#!/bin/bash
# backtrace of the violation in a replay file: tools/bt.sh replays/X.json [EXE]
cd "$(dirname "$0")/.."
P=$(python3 -c "import json,sys;d=json.load(open('$1'));print(d['property'])"); S=$(python3 -c "import json,sys;d=json.load(open('$1'));print(d['scenario'])")
python3 -c "import json,sys;d=json.load(open('$1'));print(*d['choices'])" > /tmp/bt.in
EXE=${2:-$(ls -t build/$P-* | head -1)}
SIM_NOASLR=1 gdb -q -batch -ex 'set follow-fork-mode child' -ex 'set breakpoint pending on' -ex 'break sim::violate' -ex "run batch --scenario $S --dir /tmp < /tmp/bt.in" -ex bt $EXE 2>&1 | grep -E "^#" | cut -c1-260
