#!/bin/bash
# Nothing to build: the checks are Python and import /repo/src directly. Only makes sure that they can.
cd /verif || exit 2
mkdir -p evidence
exec /opt/venv/bin/python -B -c "import antlr4, chardet, mc.impl; print('ready')"
