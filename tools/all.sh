#!/bin/bash
# every quick check, one after another; a summary of each in tools/quick.json
cd "$(dirname "$0")/.."
for i in ${@:-$(seq -f C%02g 1 99)}; do
  [ -f mc/checks/${i,,}.py ] || continue
  s=$(date +%s); ./check $i > /tmp/all.$i.log 2>&1; r=$?; e=$(($(date +%s)-s))
  echo "$i rc=$r ${e}s $(tail -1 /tmp/all.$i.log)"
  python3 - $i $e <<'P'
import json, sys
i, t = sys.argv[1:]
e = json.load(open("evidence/%s.json" % i)); c = e["coverage"]
p = "tools/quick.json"
try: q = json.load(open(p))
except OSError: q = {}
bs = sorted({d["deviation_bound"] for d in c["drivers"].values()})
q[i] = "%s executions, %s states, b = %s%s, about %s s" % (format(c["evaluations"], ","), format(c["states"], ","), "-".join(map(str, [bs[0], bs[-1]][:len(bs)])), "" if c["exhaustive"] else ", NOT exhausted", max(5, 5 * round(int(t) / 5)))
json.dump(q, open(p, "w"), indent=1, sort_keys=True)
P
done
