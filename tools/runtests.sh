#!/bin/bash
# repository tests against the stable list
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'));print('missing', set(b['stable'])-set(o['passed']))"
