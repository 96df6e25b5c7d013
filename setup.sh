#!/bin/bash
# Builds the symbolic executor and the harness once; every check rebuilds what changed by itself.
cd "$(dirname "$0")" && exec python3 -c "
import vplib, props
with vplib.Lock():
    vplib.build(sorted(set(j['entry'] for p in props.PROPS.values() for j in p.jobs('quick'))))
"
