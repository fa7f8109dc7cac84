#!/bin/bash
# usage: run.sh <property-id> [--replay FILE]   (tier from VERIF_TIER, seed from VERIF_SEED)
cd "$(dirname "$0")" || exit 3
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
PY="${PY:-/opt/venv/bin/python}"
exec "$PY" -m vt.main "$@"
