#!/bin/bash
# run the stable tests of /repo and compare with the baseline
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/o.json'))['passed']);print('missing',b-o,len(b&o))"
