#!/bin/bash
# developer helper: rebuild and run the tests of /repo against the baseline
(bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json) > /tmp/t.log 2>&1
tail -1 /tmp/t.log
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print(set(b['stable'])-set(o['passed']))"
