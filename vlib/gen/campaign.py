"""Campaigns over random grammars: forked workers, each with its own compiler, that generate, compile, build and observe."""
import traceback
from .engine import *
from ..common import *

BASE_OPTS = ["-c", "-uPER", "-ig", "-equal", "-typePrefix", "", "-renamePolicy", "3"]


class Case:
    """One grammar, compiled and built."""
    def __init__(self, r, gen, g, d):
        self.r, self.gen, self.g, self.d = r, gen, g, d
        self.binary = None
        self.log = ""

    def asn1(self):
        return "\n".join("-- %s\n%s" % kv for kv in rand.asn1_text(self.g).items())

    def replay(self, line=None, extra=""):
        s = "grammar (asn1scc %s):\n%s\n" % (" ".join(self.opts), self.asn1())
        if getattr(self, "acn", None):
            s += "\n".join("-- %s\n%s" % kv for kv in self.acn.items()) + "\n"
        if line is not None:
            s += "\ndriver command (type index, command, ...): %s\n" % line[:3000]
        return s + extra


def skeleton(s):
    """an error message without the names and numbers of one grammar"""
    s = re.sub(r"'[^']*'|‘[^’]*’|\"[^\"]*\"|/[^ ]*|\b[A-Za-z_0-9.-]*\d[A-Za-z_0-9.-]*", "_", s)
    return re.sub(r"[^A-Za-z_]+", "-", s)[:80].strip("-")


def cc_key(err):
    for ln in err.splitlines():
        m = re.search(r"(?:error|undefined reference|multiple definition).*", ln)
        if m:
            return skeleton(m.group(0))
    return skeleton(err[-200:])


def build_case(rep, case, pool, rtl, opts, drv_args, acn=None, extra_flags=()):
    """Compile the grammar and its driver; a failure is a violation of 'every correct grammar yields code that compiles'."""
    case.opts, case.acn = opts, acn
    files = write_grammar(case.g, case.d, acn)
    rc, log = compile_grammar(pool, case.d, files, opts)
    log = re.sub(r"(?m)^\s*(bitPattern\S*: )?\{? ?(Value|Location|srcFilename|srcLine|charPos) = .*\n?|^\s*(bitPattern|srcLine|charPos)\b.*\n?", "", log)       # debug prints of the compiler
    case.log = log
    if rc:
        rep.violation("compiler:%d:%s" % (rc, skeleton(log)), "correct grammar refused (rc %d): %s" % (rc, log[:600]), case.replay())
        return False
    drv = cdrv.CDriver(case.g, **drv_args)
    case.drv = drv
    case.binary, err = build_c(case.d, rtl, drv, extra_flags=extra_flags)
    if not case.binary:
        rep.violation("cc:" + cc_key(err), "generated code does not compile: " + err[:1200], case.replay())
        return False
    rep.count("grammars"); rep.count("types", len(case.g.types))
    return True


def campaign(rep, n, prof, body, rtl_args=None, cap=600, tag=""):
    """body(rep, case, pool, rtl) for n random grammars over forked workers; at most cap seconds."""
    with Scratch("cmp") as sc:
        from .. import compiler
        compiler.ensure()
        rtls = [Rtl(sc, **a) for a in (rtl_args or [{}])]
        shards(rep, _worker, NCPU, (sc, n, prof, body, rtls, cap, tag))


def _worker(rep, r, idx, sc, n, prof, body, rtls, cap, tag):
    from .. import compiler
    t0 = time.time()
    with compiler.Pool(1) as pool:
        for i in range(idx, n, NCPU):
            if time.time() - t0 > cap:
                rep.count("grammars_not_reached_in_time"); continue
            rr = random.Random("%s/%s/%d/%d" % (rep.prop, tag, seed(), i))
            gen = rand.Gen(rr, prof(rr) if callable(prof) else prof)
            case = Case(rr, gen, gen.build(), os.path.join(sc, "g%s%d" % (tag, i)))
            case.i = i
            try:
                body(rep, case, pool, rtls)
            finally:
                shutil.rmtree(case.d, ignore_errors=True)


# ------------------------------------------------------------------ behaviour classes for evidence
def klass(t):
    """A coarse class of a type: kind and the shape of its constraints."""
    b, cons = base(t)
    k = b.kind
    if k in ("INT",):
        lo, hi = int_range(t)
        return k, lo is not None, hi is not None, (hi - lo).bit_length() if lo is not None and hi is not None else 0, lo is not None and lo < 0
    if k in ("OCT", "BIT", "STR", "SEQOF", "SETOF"):
        lo, hi = size_range(t)
        return k, lo == hi, hi.bit_length(), kinds(b.elem) if b.elem is not None else (len(alphabet(t)).bit_length() if k == "STR" else 0)
    if k == "ENUM":
        return k, len(b.items).bit_length()
    if k in ("SEQ", "SET", "CHOICE"):
        return k, tuple(kinds(c.t) + (c.opt or "")[:1] for c in b.children)
    return (k,)


def kinds(t):
    b, _ = base(t)
    return b.kind


def bits_of(hexs, n):
    return "" if hexs == "-" else "".join(format(x, "08b") for x in bytes.fromhex(hexs))[:n]


def to_hex(bits):
    bits += "0" * (-len(bits) % 8)
    return "%0*x" % (len(bits) // 4, int(bits, 2)) if bits else "-"


def values(case, t, n):
    """up to n random values (a few constraints leave none that the generator can find)"""
    out = []
    for _ in range(n):
        try:
            out.append(rand.value_of(case.gen, t))
        except RuntimeError:
            pass
    return out


class Prefixed:
    """A report whose violation keys carry a prefix (fixed probes of recorded findings)."""
    def __init__(self, rep, prefix):
        self._rep, self._prefix = rep, prefix

    def violation(self, key, detail, replay):
        return self._rep.violation(self._prefix + key, detail, replay)

    def __getattr__(self, n):
        return getattr(self._rep, n)


def run_probes(rep, probes, body, cap=300):
    """body on fixed grammars; keys of what fails start with probe:<name>:"""
    with Scratch("prb") as sc:
        from .. import compiler
        compiler.ensure()
        rtls = [Rtl(sc)]
        with compiler.Pool(1) as pool:
            for name, build in probes:
                gen = rand.Gen(random.Random(name), rand.Prof(values=False))
                gen.g = build()
                case = Case(random.Random(name), gen, gen.g, os.path.join(sc, name))
                body(Prefixed(rep, "probe:%s:" % name), case, pool, rtls)
                rep.count("probes")


def grammar(*types, values=()):
    """Grammar from (name, T) pairs; earlier assignments are reachable through the callable form name -> T(asgs)."""
    g = rand.Grammar()
    by = {}
    for n, t in types:
        if callable(t):
            t = t(by)
        a = Assignment(n, t)
        by[n] = a
        g.types.append(a)
    g.values = [(n, by[tn], v) for n, tn, v in values]
    return g
