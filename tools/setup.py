"""Nothing has to be built: checks that the interpreter, hypothesis and the code under test import."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import env  # noqa: F401,E402
import hypothesis  # noqa: E402
import latex2json  # noqa: E402
print("hypothesis", hypothesis.__version__, "latex2json from", os.path.dirname(latex2json.__file__))
