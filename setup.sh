#!/bin/bash
# prebuilds the flavours of the C extension (each check rebuilds them anyway
# when /repo's sources differ)
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -B -c "
from mc import ext
print(ext.build('plain')); print(ext.build('sched')); print(ext.build('asan'))"
