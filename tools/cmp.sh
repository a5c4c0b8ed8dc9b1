#!/bin/bash
# Builds and tests /repo and compares with the baseline.
bash /opt/vp/build.sh || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/w/out.json > /tmp/w/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/out.json'))
print({k:(type(v).__name__, len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
print({k:(type(v).__name__, len(v) if hasattr(v,'__len__') else v) for k,v in b.items()})
P
