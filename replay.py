"""usage: replay.py FILE   exit 1: fails exactly as recorded, 0: it does not"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import env  # noqa
env.setup()
from dst import core  # noqa

if __name__ == '__main__':
    sys.exit(1 if core.replay_file(sys.argv[1]) else 0)
