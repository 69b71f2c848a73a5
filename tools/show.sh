#!/bin/bash
# the coverage of the last run of a check
exec python3 - "$1" <<'PY'
import json, sys
d = json.load(open(f"evidence/{sys.argv[1]}.json"))
c = d["coverage"]
for k, v in c["per_facet"].items():
    print(k, v)
for k, v in {**c["labels"], **c["counters"]}.items():
    print("   ", k, v)
PY
