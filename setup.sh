#!/bin/bash
cd "$(dirname "$0")" || exit 3
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
"${PY:-/opt/venv/bin/python}" -c "
from vt import deps
deps.setup()
import hypothesis
print('hypothesis', hypothesis.__version__)
"
