"""the state of the interpreter that the library must leave as it is (C40); does not load the library"""
import hashlib
import locale
import os
import random
import sys
import warnings

import numpy as np
import sklearn


def rng_state():
    s = np.random.get_state()
    return hashlib.md5(s[1].tobytes() + repr(s[2:]).encode() + repr(random.getstate()).encode()).hexdigest()


def snapshot():
    return {'global random generators': rng_state(), 'numpy error settings': np.geterr(), 'numpy print options': np.get_printoptions(),
            'warning filters': list(warnings.filters), 'working directory': os.getcwd(), 'environment variables': dict(os.environ),
            'sklearn configuration': sklearn.get_config(), 'files': sorted(os.listdir('.')), 'sys.path': list(sys.path),
            'recursion limit': sys.getrecursionlimit(), 'locale': locale.setlocale(locale.LC_ALL)}
