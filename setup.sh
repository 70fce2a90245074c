#!/bin/bash
# nothing to build: the framework is pure Python; only checks that the pieces are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "import mc.sched, mc.jobs, mc.canon" && echo ok
