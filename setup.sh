#!/bin/bash
# Nothing to compile: verifies that the interpreter, pyserial and the code under test can be imported.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
/opt/venv/bin/python -B -W ignore -c "import sys, serial; sys.path.insert(0, '/repo'); import gsmmodem.modem, gsmmodem.pdu; print('python', sys.version.split()[0], 'pyserial', serial.VERSION)"
mkdir -p evidence/replay
