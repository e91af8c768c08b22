"""Nothing has to be built: confirms that the interpreter, the generator library and the code under test import."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import env
env.load()
import hypothesis, numpy
print("ok", hypothesis.__version__, numpy.__version__)
