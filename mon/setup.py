#!/usr/bin/env python3
"""setup_cmd: checks that the tools the framework needs are there; the checks build everything else from /repo themselves."""
import os
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mon import stage  # noqa: E402

ok = True
for what, good in [('clang', shutil.which('clang')), ('/opt/venv/bin/python', os.path.exists('/opt/venv/bin/python')),
                   ('ASAN runtime', stage.runtime('asan')), ('TSAN runtime', stage.runtime('tsan'))]:
    print(f'{what}: {"ok" if good else "MISSING"}')
    ok &= bool(good)
r = subprocess.run(['/opt/venv/bin/python', '-B', '-c', 'import numpy, scipy, meshio, vedo; print("python packages: ok")'])
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
sys.exit(0 if ok and r.returncode == 0 else 1)
