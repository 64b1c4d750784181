#!/bin/bash
# build /repo and run its tests; prints the failures
bash /opt/vp/build.sh > /tmp/rt.build 2>&1 || { grep -E "^error" -A6 /tmp/rt.build | head -20; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json > /tmp/rt.test 2>&1
python3 -c "
import json; a=json.load(open('/tmp/rt.json')); print(len(a['passed']),'passed', a['failed'][:5])"
