"""Process environment: import the real library from /repo/src, deterministically."""
import os
import sys
import warnings

REPO = os.environ.get("PKVERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if SRC in sys.path:
    sys.path.remove(SRC)
sys.path.insert(0, SRC)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402
import torch  # noqa: E402

torch.set_num_threads(1)
import pytorch_kinematics as pk  # noqa: E402
from pytorch_kinematics.frame import Frame, Link, Joint, Visual  # noqa: E402,F401

if not os.path.abspath(pk.__file__).startswith(SRC + os.sep):
    print("harness error: imported pytorch_kinematics from", pk.__file__, file=sys.stderr)
    sys.exit(2)
# the XML reflection prints a line per unknown tag; that is not under test here
F64, F32 = torch.float64, torch.float32


def t64(x):
    return torch.as_tensor(np.asarray(x, dtype=np.float64))


def npy(x):
    return x.detach().cpu().numpy() if torch.is_tensor(x) else np.asarray(x)
