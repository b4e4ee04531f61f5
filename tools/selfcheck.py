"""setup_cmd: nothing to build; check that the interpreter and the code under test import."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env

env.reexec_if_needed()
env.use_repo()
import cv2, numpy, rasterio  # noqa
import orthority  # noqa

print('ok', orthority.__file__)
