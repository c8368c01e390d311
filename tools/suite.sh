#!/bin/bash
# build and run the stable suite; print what is missing
bash /opt/vp/build.sh >/tmp/suite.log 2>&1 || { grep -m5 error: /tmp/suite.log; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/suite.json >>/tmp/suite.log 2>&1
python3 - <<'P'
import json
st=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('/tmp/suite.json'))['passed'])
m=[t for t in st if t not in p]; print(len(st),"stable,",len(m),"failing",m[:6])
P
