#!/bin/bash
# nothing to build: the driver compiles the contracts and /repo's sources on every run
for t in goto-cc goto-instrument cbmc gcc python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p /verif/evidence/replay
python3 /verif/lib/driver.py list >/dev/null
