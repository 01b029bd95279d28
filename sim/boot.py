"""import everything once with the seams installed (the zygote)"""
import os
import sys


def boot(repo):
    # heavy third party modules first, with their own real primitives
    import numpy
    import scipy.ndimage, scipy.spatial, scipy.stats, scipy.interpolate
    import multiprocessing, multiprocessing.connection, multiprocessing.queues
    import multiprocessing.synchronize, multiprocessing.util
    import click, tempfile, shutil, json, logging, random, subprocess
    import numpy.lib._datasource
    from sim import prims, popen, files, rand
    prims.install()
    popen.install()
    files.install()
    rand.install()
    import raytools
    import raytools.io, raytools.imagetools, raytools.cli
    import raytools.evaluate.hvsgsm
    import raytools.mapper
    import importlib
    import pkgutil
    for m in pkgutil.walk_packages(raytools.__path__, "raytools."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    p = os.path.dirname(os.path.realpath(raytools.__file__))
    if p != os.path.join(os.path.realpath(repo), "raytools"):
        raise SystemExit(f"imported raytools from {p}, not from {repo}")
    import gc
    gc.collect()
    gc.freeze()     # what is loaded now is never scanned again
