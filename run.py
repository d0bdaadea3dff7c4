"""usage: run.py <property id> [quick|thorough | --replay FILE]"""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vmon import core
sys.exit(core.main(sys.argv[1:]))
