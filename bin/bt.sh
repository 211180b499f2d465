#!/bin/bash
# development helper: build /repo and run its tests; fails if a stable test is lost
cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 /verif/bin/lost.py
