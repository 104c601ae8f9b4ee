#!/bin/bash
# Nothing to install: checks build what they need from /repo. Verify the toolchain.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c 'import numpy, scipy, airfoils, aeroframe, commonlibs, schemadict, ambiance' || exit 1
g++ --version >/dev/null || exit 1
chmod +x check
exit 0
