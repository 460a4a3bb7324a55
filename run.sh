#!/bin/bash
cd "$(dirname "$0")"; export PYTHONPATH=$PWD
exec /opt/venv/bin/python -m sim.run "$@"
