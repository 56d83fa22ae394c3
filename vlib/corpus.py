"""The upstream v4 regression corpus (grammar + ACN variants + expected diagnostics), shipped in /repo but run by no stable test."""
import os, shutil
from .common import *

BASE = os.path.join(REPO, "v4Tests", "test-cases", "acn")


class Case:
    __slots__ = ("id", "asn1", "acn", "kind", "err", "noatc", "first")


def load():
    res = []
    for d in sorted(os.listdir(BASE)):
        dd = os.path.join(BASE, d)
        if not os.path.isdir(dd):
            continue
        for f in sorted(os.listdir(dd)):
            if not f.endswith(".asn1"):
                continue
            lines = open(os.path.join(dd, f), errors="replace").read().splitlines()
            first = lines[0] if lines else ""
            i = 0
            for ln in lines:
                kind = None
                for tag, k, isfile in (("--TCLS", "ok", 0), ("--TCLFC", "fail", 0), ("--TCFS", "ok", 1), ("--TCFFC", "fail", 1)):
                    if ln.startswith(tag) and (len(ln) == len(tag) or not ln[len(tag)].isalpha()):
                        kind, fl, body = k, isfile, ln[len(tag):].strip()
                if kind is None:
                    if ln.startswith("--TCBREAK"):
                        break
                    continue
                c = Case(); c.kind = kind; c.err = None
                if "$$$" in body:
                    body, c.err = [x.strip() for x in body.split("$$$", 1)]
                if fl:
                    try:
                        c.acn = open(os.path.join(dd, body), errors="replace").read()
                    except OSError:
                        continue
                else:
                    c.acn = "-- Auto generated file\n\nTEST-CASE DEFINITIONS ::= BEGIN\n\t" + body + "\nEND\n"
                c.asn1 = os.path.join(dd, f); c.first = first
                c.noatc = "NO_AUTOMATIC_TEST_CASES" in first
                c.id = "%s/%s#%d" % (d, f, i); i += 1
                res.append(c)
    return res


def materialise(c, dst):
    os.makedirs(dst, exist_ok=True)
    shutil.copyfile(c.asn1, os.path.join(dst, "sample1.asn1"))
    with open(os.path.join(dst, "sample1.acn"), "w") as f:
        f.write(c.acn)
