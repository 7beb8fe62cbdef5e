#!/bin/bash
# Nothing is compiled: check that the simulator and the code under test can be imported.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
py=/opt/venv/bin/python
[ -x $py ] || py=python3
cd "$here" && $py -c "
import json
from sim import core, world
for c in json.load(open('MANIFEST.json'))['checks']:
    core.load_prop(c['property'])
print('ready')
"
