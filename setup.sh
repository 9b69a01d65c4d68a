#!/bin/sh
# Nothing to compile: the checks import /repo's working tree directly.
# Verify that the interpreter and the engine work.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c "
import sys; sys.path[:0] = ['.', '/repo']
import vp.core, pyparsing, yaml, bs4, lxml, polib, mistune
print('ok')"
