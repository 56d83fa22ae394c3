"""Build and drive the C runtime driver."""
import os, re, subprocess, hashlib, threading
from .common import *
from . import rtgen

RT_C = ["asn1crt.c", "asn1crt_encoding.c", "asn1crt_encoding_acn.c", "asn1crt_encoding_uper.c"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
SANENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:max_allocation_size_mb=512",
          "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}


def rt_sources():
    d = os.path.join(REPO, "asn1crt")
    return [os.path.join(d, f) for f in RT_C]


def build_driver(out, main_source, flags=(), cc="gcc", opt="-O1", san=True, extra=(), inc=()):
    """Compile a driver together with the runtime taken from /repo's working tree."""
    src = out + ".c"
    open(src, "w").write(main_source)
    cmd = [cc, "-std=gnu99", "-g", opt, "-w"] + (SAN if san else []) + list(flags) + \
          ["-I" + os.path.join(REPO, "asn1crt"), "-I" + os.path.join(VERIF, "harness", "c")] + ["-I" + i for i in inc] + \
          [src] + rt_sources() + list(extra) + ["-lm", "-o", out]
    rc, o, e = run(cmd, timeout=300)
    if rc != 0:
        raise CheckError("driver does not compile: %s\n%s" % (" ".join(cmd), e[-3000:]))
    return out


def run_lines(binary, lines, per_case_timeout=12, env=None, chunk=4000, pre=()):
    """Feed cases, one line each; returns one string per case.  A case on which the process dies yields
    'CRASH <first line of the sanitizer report>' and the rest continues in a new process."""
    res = []
    e = dict(os.environ); e.update(SANENV); e.update(env or {})
    i = 0
    total = len(lines)
    while i < total:
        part = lines[i:i + chunk]
        p = subprocess.Popen(list(pre) + [binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                             start_new_session=True, text=True, errors="replace")
        try:
            out, err = p.communicate("\n".join(part) + "\n", timeout=per_case_timeout * 20 + 60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            err += "\nHARNESS-TIMEOUT"
        got = out.split("\n")
        complete = got[:-1]
        if p.returncode == 0 and len(complete) == len(part):
            res += complete
            i += len(part)
            continue
        if p.returncode == 97 or "HARNESS" in err and "HARNESS-TIMEOUT" not in err:
            raise CheckError("driver protocol error: " + err[:500])
        if len(complete) > len(part) or len(complete) == len(part):
            raise CheckError("driver produced too much output (rc %s): %s" % (p.returncode, err[:300]))
        res += complete
        res.append("CRASH rc=%s %s" % (p.returncode, summarize(err)))
        i += len(complete) + 1
    return res


def summarize(err):
    m = re.search(r"HARNESS-TIMEOUT", err)
    if m:
        return "no termination within the limit"
    m = re.search(r"(\S+:\d+):\d+: runtime error: (.*)", err)
    if m:
        return "UBSan %s: %s" % (os.path.basename(m.group(1)), m.group(2))
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        fr = re.findall(r"#\d+ 0x\S+ in (\S+) (\S+)", err)
        fr = [(f, os.path.basename(l)) for f, l in fr if "asn1crt" in l] or [(f, os.path.basename(l)) for f, l in fr][:1]
        return "ASan %s in %s" % (m.group(1), "%s %s" % fr[0] if fr else "?")
    m = re.search(r"^.*Assertion .*$", err, re.M)
    if m:
        return "assert: " + m.group(0)[-300:]
    return err.strip()[:300].replace("\n", " | ")


def crash_key(s):
    """Stable part of a crash summary (no line numbers)."""
    s = re.sub(r":\d+", "", s)
    s = re.sub(r"0x[0-9a-f]+|-?\d+", "N", s)
    return re.sub(r"[^A-Za-z0-9_.]+", "_", s)[:120].strip("_")


def parse(line):
    """-> (list of ops results [(ret, pos, [values])], buffer hex)"""
    left, _, buf = line.rpartition("|")
    ops = []
    for t in left.split():
        m = re.match(r"r(\d+),p(-?\d+)(?:,(.*))?$", t)
        if not m:
            raise CheckError("unparsable driver output: " + line[:200])
        ops.append((int(m.group(1)), int(m.group(2)), m.group(3).split(",") if m.group(3) is not None else []))
    return ops, buf.strip()
