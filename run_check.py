"""usage: run_check.py Cnn [--tier quick|thorough]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import env  # noqa
env.setup()
from dst import core  # noqa
import importlib  # noqa

if __name__ == '__main__':
    check = importlib.import_module('checks.' + sys.argv[1].lower())
    sys.exit(core.main(check, sys.argv[2:]))
