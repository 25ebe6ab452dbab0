#!/bin/bash
# Run the stable tests of a tree (default /repo) and print the stable tests which do not pass.
bash /opt/vp/test.sh /tmp/stable_out.json >/tmp/stable_test.log 2>&1
python3 - <<'P'
import json
a=json.load(open('/tmp/stable_out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('stable tests not passing:', sorted(set(b['stable'])-set(a['passed'])))
P
