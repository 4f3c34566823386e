#!/bin/bash
# usage: fixed.sh PROPERTY [COMMIT]: records a repair in known_findings.jsonl
c=$(git -C /repo rev-parse "${2:-HEAD}")
m=$(git -C /repo log -1 --format=%s "$c" | sed 's/^fix: //')
python3 - "$1" "$c" "$m" >> "$(dirname "$0")/../known_findings.jsonl" <<'P'
import sys, json
p, c, m = sys.argv[1:]
print(json.dumps({"kind": "fixed", "property": p, "commit": c, "what": "fixed: property=%s %s %s" % (p, c[:7], m)}))
P
