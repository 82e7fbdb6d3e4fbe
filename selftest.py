#!/opt/venv/bin/python
"""setup_cmd: checks that the framework can run here (nothing has to be built)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import bootstrap  # noqa: E402

bootstrap.setup()
import hypothesis  # noqa: E402
import fv3gfs.util  # noqa: E402
from pbt import cube  # noqa: E402

# the cube oracle must be a closed surface: six distinct faces, opposite normals paired
normals = {tuple(f[3]) for f in cube.faces(2)}
assert len(normals) == 6, normals
print("hypothesis", hypothesis.__version__, "fv3gfs.util from", fv3gfs.util.__file__)
