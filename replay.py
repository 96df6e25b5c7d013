#!/usr/bin/env python3
"""replay.py FILE: run a reported counterexample again in the natively compiled program, or in the
JavaScript client as shipped."""
import json, os, subprocess, sys
import vplib
c = json.load(open(sys.argv[1]))
if c.get('js'):
    print('JavaScript client, %s: %s' % (c['job'], c['label']))
    sys.exit(subprocess.call(['node', os.path.join(vplib.VERIF, 'jsx', 'main.mjs'), vplib.REPO, '--replay', sys.argv[1]]))
with vplib.Lock():
    vplib.build_harness()
    print(c['entry'], c['params'], c['label'])
    for n, v in zip(c['names'], c['inputs']):
        print('  %s = %s' % (n, v))
    for l in vplib.native([(c['entry'], c['params'], c['inputs'])])[0]:
        print(l)
