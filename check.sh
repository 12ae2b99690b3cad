#!/bin/bash
# check.sh C01 [--tier quick|thorough] [--runs N] ...   |   check.sh replay FILE
cd "$(dirname "$0")" || exit 2
if [ "$1" = setup ]; then
  d=$(mktemp -d) && gcc -O1 -w -shared -fPIC -o "$d/shim.so" sim/shim.c -ldl; r=$?
  rm -rf "$d"
  [ $r = 0 ] && exec /opt/venv/bin/python -s -B -c 'import lxml.etree, arrow, pygeoif'
  exit 2
fi
if [ "$1" = replay ]; then exec /opt/venv/bin/python -s -B sim/__main__.py replay "$2"; fi
exec /opt/venv/bin/python -s -B sim/__main__.py check "$@"
