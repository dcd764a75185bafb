#!/bin/bash
# nothing to build: verify that the interpreter, z3 and the code under test load
cd "$(dirname "$0")" || exit 2
chmod +x check.sh replay.sh
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "
from symx import core, env, nparr
env.modules(); env.remove_base()
print('z3', core.z3.get_version_string())"
