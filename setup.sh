#!/bin/bash
# nothing to build: the checks run from the committed files
cd "$(dirname "$0")" && mkdir -p evidence replays && command -v python3-vt >/dev/null && /opt/venv/bin/python -c 'import openmdao, numpy' 
