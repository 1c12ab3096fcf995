"""names the installed third-party libraries provide (run with the library's Python; writes sa/extnames.json, committed)"""
import importlib, json, types, os, sys
MODS = """numpy numpy.linalg numpy.linalg.linalg numpy.random numpy.core numpy.fft scipy scipy.linalg scipy.sparse scipy.sparse.linalg scipy.optimize scipy.integrate
scipy.special math cmath functools itertools operator os os.path shutil glob copy time uuid pickle collections collections.abc warnings ctypes ctypes.util
numpy.ctypeslib numpy.lib numpy.testing numpy.ma numpy.polynomial scipy.stats scipy.interpolate scipy.constants logging datetime pathlib threading tempfile types typing inspect dataclasses enum numbers heapq bisect statistics fractions decimal io subprocess multiprocessing concurrent.futures argparse traceback matplotlib matplotlib.pyplot unittest sys json re random string cProfile tqdm contextlib hashlib""".split()
out = {"modules": {}, "attributes": []}
for m in MODS:
    try:
        o = importlib.import_module(m)
    except Exception as e:
        print("skip", m, e)
        continue
    out["modules"][m] = sorted(set(dir(o)) | set(getattr(o, "__all__", [])))
import numpy as np
ty = [np.ndarray, np.float64, np.complex128, np.int64, np.bool_, list, dict, str, tuple, set, frozenset, int, float, complex, bool, bytes, type(None), BaseException, types.FunctionType, types.GeneratorType, type, object, slice, range, np.dtype, type(np.ones(1).flags), np.random.RandomState, np.random.Generator, np.poly1d]
names = set()
for t in ty:
    names |= set(dir(t))
try:
    from scipy.sparse.linalg import LinearOperator
    from scipy.optimize import OptimizeResult
    names |= set(dir(LinearOperator)) | set(dir(OptimizeResult))
except Exception as e:
    print(e)
try:
    import matplotlib.pyplot as plt, matplotlib.axes, matplotlib.figure, matplotlib.axis
    names |= set(dir(matplotlib.axes.Axes)) | set(dir(matplotlib.figure.Figure)) | set(dir(matplotlib.axis.XAxis))
except Exception as e:
    print(e)
f = open(os.devnull)
names |= set(dir(f))
import uuid, argparse, ctypes
names |= set(dir(uuid.uuid4())) | set(dir(ctypes.CDLL)) | set(dir(ctypes.c_int())) | {"dgesvd_", "zgesvd_", "sgesvd_", "cgesvd_"} | {"restype", "argtypes", "contents"}
names |= {"x", "y", "t", "success", "message", "fun", "sol", "status", "nfev", "jac"}     # fields of scipy results
for m in "collections functools itertools pathlib re logging datetime threading types typing inspect contextlib io os enum fractions decimal numbers argparse subprocess tempfile uuid time concurrent.futures dataclasses unittest".split():
    o = importlib.import_module(m)
    for k in dir(o):
        v = getattr(o, k)
        if isinstance(v, type) and not k.startswith("_"):
            names |= {x for x in dir(v) if not x.startswith("__")}
names |= {"left", "right", "_fields"}
out["attributes"] = sorted(names)
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "extnames.json"), "w"), indent=0, ensure_ascii=False)
