"""library calls on image files, used by the histories of several checks"""
import os
import sys
import numpy as np
from sim import core, rgbe
from checks import images as I

OPS = ["array", "carray", "vlambda", "stream", "header", "items", "size",
       "view", "write", "cwrite", "swrite", "uv2ang", "ang2uv", "rotate",
       "solid2ang", "metric", "gss", "gss_save"]


def gen_op(rng, ops=None):
    return dict(op=rng.choice(ops or OPS), a=rng.randrange(1000))


KEEP = []       # broken streams are never closed
VIEW = ["VIEW= -vta -vp 0 0 0 -vd 0 1 0 -vu 0 0 1 -vh 180 -vv 180"]


def do(op, path, out):
    """run one call on the image at path; -> value, name of file written"""
    from raytools import io, imagetools
    o, a = op["op"], op["a"]
    if o == "array":
        return io.hdr2array(path), None
    if o == "carray":
        return io.hdr2carray(path, header=bool(a % 2)), None
    if o == "vlambda":
        return io.hdr2array(path, vlambda=(.2, .7, .1)), None
    if o == "stream":
        with open(path, "rb") as f:
            return (io.hdr2array if a % 2 else io.hdr2carray)("", f), None
    if o == "header":
        return io.hdr_header(path, clean=bool(a % 2)), None
    if o == "items":
        return io.hdr_header(path, items=["software"]), None
    if o == "size":
        return imagetools.img_size(path), None
    if o == "view":
        vm = imagetools.hdr2vm(path)
        return (None if vm is None else (np.array(vm.dxyz), vm.viewangle)), \
            None
    if o in ("write", "cwrite", "swrite"):
        g = np.random.Generator(np.random.PCG64(a))
        ar = g.random((7 + a % 40, 5) if o != "cwrite" else (3, 9, 4 + a % 30))
        return io.array2hdr(ar, None if o == "swrite" else out,
                            None if a % 3 == 0 else ["a=1", "b c=2"],
                            clean=a % 3 == 2), \
            None if o == "swrite" else out
    if o == "uv2ang":
        return imagetools.hdr_uv2ang(path, outf=out), out
    if o == "ang2uv":
        return imagetools.hdr_ang2uv(path, useview=bool(a % 2),
                                     outf=out), out
    if o == "rotate":
        return imagetools.hdr_rotate(path, outf=out, rotate=a % 360,
                                     nearest=bool(a % 2),
                                     center=(2, 3) if a % 3 == 0 else None), \
            out
    if o == "solid2ang":
        return imagetools.hdr_solid2ang(path, outf=out,
                                        reverse=bool(a % 2)), out
    if o == "metric":
        return imagetools.imgmetric(path, ["illum", "dgp"] +
                                    (["ugp"] if a % 2 else [])), None
    if o.startswith("gss"):
        from raytools.evaluate.hvsgsm import GSS
        g = GSS(path)
        if g.lum is None:
            g.lum = path
        return g.compute(save=out if o == "gss_save" else None), \
            out if o == "gss_save" else None
    raise core.HarnessError(o)


def cli(argv):
    """run the command line tool in this process -> exit status, exception"""
    import raytools.cli
    try:
        r = raytools.cli.main.main(args=list(argv), prog_name="raytools",
                                   standalone_mode=True)
        code, ex = 0, None
    except SystemExit as e:
        code, ex = e.code, None
    except (core.Violation, core.HarnessError):
        raise
    except BaseException as e:
        code, ex = 1, e
    if code is None:
        code = 0
    for n in ("stdout", "stderr"):
        f = getattr(sys, n)
        try:
            f.flush()
        except OSError:
            code = code or 120      # as the interpreter does at its end
            new = os.fdopen(f.fileno(), "w", closefd=False)
            KEEP.append(f)
            setattr(sys, n, new)
            setattr(sys, "__%s__" % n, new)
    return code, ex
