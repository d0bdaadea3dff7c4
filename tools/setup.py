"""setup: nothing to compile; verify that the interpreter, the libraries and /repo's working tree are usable"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V]
sys.dont_write_bytecode = True
from vmon import core
core.setup_python()
import h5py, numpy, scipy, astropy
print('hickle from /repo, h5py %s numpy %s scipy %s astropy %s' % (h5py.__version__, numpy.__version__, scipy.__version__, astropy.__version__))
