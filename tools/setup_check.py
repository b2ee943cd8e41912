#!/usr/bin/env python3
"""Checks that what the framework needs is installed (nothing is built)."""
import os
import subprocess
import sys

need = ['/opt/veriftools/pyvenv/bin/python', '/usr/share/java/jython.jar',
        '/usr/share/jython', '/opt/pyamf-deps']
missing = [p for p in need if not os.path.exists(p)]
if missing:
    sys.exit('missing: %s' % missing)
subprocess.check_call(['/opt/veriftools/pyvenv/bin/python', '-c',
                       'import hypothesis'])
print('ready')
