#!/bin/bash
# Nothing to build: checks import the code from /repo's working tree. Verify that the pieces are there.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh >/dev/null 2>&1
/opt/venv/bin/python -c 'import numpy, scipy, hmf, halomod, astropy, hankel, colossus' && mkdir -p evidence/replay
