"""Entry point: check.py <property> [--tier quick|thorough] [-v] [--only H]

Runs with /opt/venv/bin/python (the interpreter of the code under test)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('SYMX_REPO', '/repo'))  # set by tools only
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True

from symx.run import main  # noqa: E402

if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
