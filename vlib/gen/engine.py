"""Compile random grammars with the real compiler, build their drivers under sanitizers, talk to them."""
import os, random, shutil, subprocess, threading, time
from ..common import *
from .. import compiler, rt
from .model import *
from . import rand, cdrv

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


class Rtl:
    """The runtime library of the working tree, compiled once per flag set."""
    def __init__(self, scratch, flags=(), san=True, cc="gcc", xer=False, ber=False, src=None):
        self.dir = os.path.join(scratch, "rtl-" + hashlib.sha1(repr((flags, san, cc, xer)).encode()).hexdigest()[:8])
        os.makedirs(self.dir, exist_ok=True)
        self.flags, self.san, self.cc = list(flags), san, cc
        self.inc = src or os.path.join(REPO, "asn1crt")
        self.objs = []
        jobs = []
        for f in rt.RT_C + (["asn1crt_encoding_xer.c"] if xer else []) + (["asn1crt_encoding_ber.c"] if ber else []):
            o = os.path.join(self.dir, f[:-2] + ".o")
            jobs.append([cc, "-std=gnu99", "-g", "-O1", "-w"] + (SAN if san else []) + self.flags + ["-I" + self.inc, "-c", os.path.join(self.inc, f), "-o", o])
            self.objs.append(o)
        for rc, out, err in pmap(lambda c: run(c, timeout=300), jobs):
            if rc:
                raise CheckError("runtime does not compile: " + err[-2000:])


class Built:
    pass


def write_grammar(g, d, acn=None):
    os.makedirs(d, exist_ok=True)
    files = []
    for fn, txt in rand.asn1_text(g).items():
        open(os.path.join(d, fn), "w").write(txt); files.append(fn)
    if acn:
        for fn, txt in acn.items():
            open(os.path.join(d, fn), "w").write(txt); files.append(fn)
    return files


def compile_grammar(pool, d, files, opts, out="out"):
    o = os.path.join(d, out)
    os.makedirs(o, exist_ok=True)
    rc, log = pool.run(list(opts) + ["-o", out] + files, d)
    return rc, log


def build_c(d, rtl, drv, out="out", opt="-O0", extra_flags=(), own_rtl=False, name="drv"):
    """Compile generated C plus driver -> (binary | None, compiler messages)"""
    o = os.path.join(d, out)
    cs = sorted(f for f in os.listdir(o) if f.endswith(".c") and not f.startswith("asn1crt"))
    hs = sorted(f for f in os.listdir(o) if f.endswith(".h") and not f.startswith("asn1crt"))
    if not own_rtl:
        for f in os.listdir(o):
            if f.startswith("asn1crt"):
                os.unlink(os.path.join(o, f))
    src = os.path.join(o, name + "_main.c")
    open(src, "w").write(drv.source(hs))
    binary = os.path.join(d, name)
    # one translation unit: the generated functions use unique names
    cmd = [rtl.cc, "-std=gnu99", "-g1", opt, "-w"] + (SAN if rtl.san else []) + rtl.flags + list(extra_flags) + ["-I" + o, "-I" + rtl.inc] + \
          [src] + [os.path.join(o, c) for c in cs] + rtl.objs + ["-lm", "-o", binary]
    rc, out_, err = run(cmd, timeout=600)
    return (binary if rc == 0 else None), err


DEFOPTS = ["-c", "-uPER", "-ig", "-equal", "-typePrefix", ""]
