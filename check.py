#!/usr/bin/env python3
"""Entry point of all checks:  check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Re-executes itself with the interpreter which has the dependencies of /repo
and a fixed environment, then runs checks/<property>.py with vlib.core.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('VERIF_REEXEC') != '1':   # (set by the re-executed process only)
    env = dict(os.environ)
    env.update(VERIF_REEXEC='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               TZ='UTC', LC_ALL='C.UTF-8')
    for name in ('PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONWARNINGS', 'LD_PRELOAD'):
        env.pop(name, None)
    sys.stdout.flush()
    os.execve(PY, [PY, '-W', 'ignore', os.path.join(HERE, 'check.py')] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from vlib import core
sys.exit(core.main(sys.argv[1:], HERE))
