#!/bin/bash
# nothing to build: the checks run /repo's sources with the installed Jython; confirm the tools are there
cd "$(dirname "$0")" || exit 1
python3-vt -c 'import hypothesis' && test -f /usr/share/java/jython.jar && command -v java >/dev/null
