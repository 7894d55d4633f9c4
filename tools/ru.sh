#!/bin/bash
# run several units in parallel, compact summary (development helper)
mkdir -p /tmp/w
for u in "$@"; do python3 /verif/lib/driver.py unit $u -v > /tmp/w/$u.out 2>&1 & done; wait
for u in "$@"; do echo "== $u $(egrep '"(status|obligations|discharged|verifier_s|wall_s)"' /tmp/w/$u.out | tr -d '\n')"; egrep '"(why|confirm|fallback|note|inlined)": ".+"' /tmp/w/$u.out | cut -c1-260;  sed -n '/"failed"/,/\]/p' /tmp/w/$u.out | head -8; done
