#!/bin/bash
# The framework is plain Python: check that its interpreter and the code under test can be imported.
cd "$(dirname "$0")" || exit 1
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$PWD" MPLCONFIGDIR=$(mktemp -d /tmp/mcsetup.XXXXXX)
/opt/venv/bin/python -W ignore -c "import templatefitter, mc.core, mc.models, mc.fitref; print(templatefitter.__file__)"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
