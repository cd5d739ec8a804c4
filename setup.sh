#!/bin/bash
# Nothing to build: the framework is Python. Make sure that it and the code under test can be imported.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 TZ=UTC
mkdir -p evidence replays
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '/repo')
import lxml, mc.explore, mc.run, mc.lib.models, soapfish.xsd
print('ready')"
