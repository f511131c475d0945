#!/bin/bash
# Nothing to compile: checks that the interpreter and the simulator's seams are there.
cd "$(dirname "$0")" || exit 2
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
unset TF_DETERMINISTIC_OPS PYTHONPATH
export PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=
mkdir -p evidence replays
exec /opt/venv/bin/python -c "
from dst import env
env.setup()
from dst import executor, world, reference, props
print('simulator ready: %d properties' % len(props.registry()))
"
