import numpy as np
import time
import torch
default_rng: np.random.Generator = None
"numpy.random.Generator: repast4py's default random generator created using init.\nSee the Generator `API documentation <https://numpy.org/doc/stable/reference/random/generator.html>`_\nfor more information on the available distributions and sampling functions.\n"
seed: int = None
'The current random seed used by :data:`repast4py.random.default_rng`'

def init(rng_seed=None):
    global default_rng, seed
    if rng_seed is None:
        seed = int(time.time())
    else:
        seed = rng_seed
    torch.manual_seed(seed)
    default_rng = np.random.default_rng(seed)
init()
