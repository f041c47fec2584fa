#!/bin/bash
# replay.sh FILE : runs the case of a replay file on the real code in /repo
f=$(realpath "$1"); d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d)
cd "$w" && OPENMDAO_REPORTS=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENMDAO_WORKDIR=$w \
  PYTHONPATH=$d/harness:${VERIF_REPO:-/repo} /opt/venv/bin/python -W ignore -m vreal.main --replay "$f"
rc=$?; cd /; [ -d "$w" ] && rm -r "$w"; exit $rc
