"""Builds the real asn1scc compiler from /repo's working tree (offline) and runs it.

The two NuGet packages that are not available offline are substituted: FsToolkit.ErrorHandling by a
35-line shim (compiler/FsToolkitShim) and Argu 6.2.5 by the Argu 3.7.0 that /repo vendors in packages/.
Everything else is /repo's own source.  The build tree is a cache keyed by a hash of the sources."""
import os, re, subprocess, threading, queue, time, hashlib, shutil
from .common import *

DIRS = ["Antlr", "CommonTypes", "FrontEndAst", "BackendAst", "ST", "StgC", "StgAda", "StgScala", "StgVarious",
        "parseStg2", "asn1scc", "asn1crt", "ADA_RTL2", "asn1scala", "packages"]
# only what the build reads; packages/ and the stainless jar are large but static
ENV = {"DOTNET_CLI_TELEMETRY_OPTOUT": "1", "DOTNET_NOLOGO": "1", "MSBUILDDISABLENODEREUSE": "1",
       "DOTNET_CLI_USE_MSBUILD_SERVER": "0", "DOTNET_SKIP_FIRST_TIME_EXPERIENCE": "1",
       "DOTNET_TieredPGO": "0", "HOME": os.environ.get("HOME", "/root")}
ROOT = os.path.join(CACHE, "asn1scc")
SRC = os.path.join(ROOT, "src")
EXCL = ["bin", "obj", "_build", ".vs", "TestResult*", "*.user"]


def _source_files():
    res = []
    for d in DIRS:
        for dp, dn, fn in os.walk(os.path.join(REPO, d)):
            dn[:] = [x for x in dn if x not in ("bin", "obj", "_build", ".vs", "target", "obj_x86", "obj_msp430")]
            for f in fn:
                if f.endswith((".stg.fs",)) or f == "AbstractMacros.fs":
                    continue   # generated by parseStg2 during the build
                if f in ("asn1Parser.cs", "asn1Lexer.cs", "acnParser.cs", "acnLexer.cs") and d == "Antlr":
                    continue   # generated by ANTLR during the build
                p = os.path.join(dp, f)
                if os.path.isfile(p):
                    res.append(p)
    for dp, dn, fn in os.walk(os.path.join(VERIF, "compiler")):
        dn[:] = [x for x in dn if x not in ("bin", "obj")]
        res += [os.path.join(dp, f) for f in fn]
    return res


def _patch(path, a, b):
    s = open(path, encoding="utf-8-sig").read()
    n = re.sub(a, lambda m: b, s)
    if n != s:
        open(path, "w", encoding="utf-8").write(n)
    elif b not in s:
        raise CheckError("cannot adapt %s for the offline build" % path)


def ensure():
    """Returns the path of the host dll, (re)building when the sources changed."""
    with Lock("asn1scc"):
        os.makedirs(SRC, exist_ok=True)
        h = hash_files(_source_files())
        stamp = os.path.join(ROOT, "stamp")
        dll = os.path.join(SRC, "host", "bin", "Debug", "net10.0", "VHost.dll")
        if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(dll):
            return dll
        if os.path.exists(stamp):
            os.unlink(stamp)
        t0 = time.time()
        ex = []
        for e in EXCL:
            ex += ["--exclude", e]
        for d in DIRS:
            # -c: compare content, and give changed files a fresh mtime so that the incremental build sees them
            run(["rsync", "-rlc", "--delete", "--exclude", "*.stg.fs", "--exclude", "AbstractMacros.fs"] + ex +
                [os.path.join(REPO, d) + "/", os.path.join(SRC, d) + "/"], check=True)
        for d in ("host", "FsToolkitShim"):
            run(["rsync", "-rlc", "--delete"] + ex + [os.path.join(VERIF, "compiler", d) + "/", os.path.join(SRC, d) + "/"], check=True)
        _patch(os.path.join(SRC, "FrontEndAst", "FrontEndAst.fsproj"),
               r'<PackageReference Include="FsToolkit.ErrorHandling"[^>]*/>',
               '<ProjectReference Include="..\\FsToolkitShim\\FsToolkit.ErrorHandling.fsproj" />')
        _patch(os.path.join(SRC, "asn1scc", "asn1scc.fsproj"),
               r'<PackageReference Include="Argu"[^>]*/>',
               '<Reference Include="Argu"><HintPath>..\\packages\\Argu.3.7.0\\lib\\netstandard1.6\\Argu.dll</HintPath></Reference>')
        cmd = ["dotnet", "build", "host/VHost.csproj", "-nologo", "-v:m", "-clp:ErrorsOnly", "-nodeReuse:false",
               "-p:NuGetAudit=false", "-p:RuntimeIdentifiers=", "-p:UseSharedCompilation=false",
               "-p:RestoreSources=/usr/lib/dotnet/library-packs", "-p:GenerateDocumentationFile=false",
               "-p:SatelliteResourceLanguages=en", "-p:TreatWarningsAsErrors=false"]
        rc, out, err = run(cmd, cwd=SRC, timeout=800, env=ENV)
        if rc != 0:
            # an interrupted or inconsistent incremental state: one clean retry
            for d in DIRS + ["host", "FsToolkitShim"]:
                for b in ("bin", "obj"):
                    shutil.rmtree(os.path.join(SRC, d, b), ignore_errors=True)
            rc, out, err = run(cmd, cwd=SRC, timeout=800, env=ENV)
            if rc != 0:
                raise CheckError("asn1scc does not build: " + (out + err)[-3000:])
        open(stamp, "w").write(h)
        print("[compiler] built asn1scc from %s in %.0fs" % (REPO, time.time() - t0))
        return dll


class Host:
    """One long-running compiler process; jobs are run one after another."""
    def __init__(self, dll):
        self.dll = dll
        self.p = None
        self.njobs = 0

    def _start(self):
        env = dict(os.environ); env.update(ENV)
        self.p = subprocess.Popen(["dotnet", self.dll], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, start_new_session=True, text=True)
        self.njobs = 0

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                try:
                    os.killpg(self.p.pid, 9)
                except Exception:
                    pass
            self.p = None

    def job(self, args, cwd, timeout=120):
        if self.p is None or self.p.poll() is not None:
            self._start()
        log = os.path.join(cwd, ".asn1scc.%d.log" % threading.get_ident())
        self.p.stdin.write("\t".join([cwd, log] + list(args)) + "\n")
        self.p.stdin.flush()
        res = []
        def rd():
            res.append(self.p.stdout.readline())
        t = threading.Thread(target=rd, daemon=True); t.start(); t.join(timeout)
        if t.is_alive():
            os.killpg(self.p.pid, 9); self.p = None
            raise Timeout("asn1scc timeout: " + " ".join(args))
        ln = res[0]
        out = open(log, errors="replace").read() if os.path.exists(log) else ""
        try:
            os.unlink(log)
        except OSError:
            pass
        self.njobs += 1
        if not ln.startswith("DONE"):
            rc = self.p.wait(); self.p = None
            return 1000 + (rc if rc >= 0 else -rc), out      # the process died
        rc = int(ln.split()[1])
        return rc, out


class Pool:
    """A pool of compiler hosts usable from several threads."""
    def __init__(self, n=NCPU):
        self.dll = ensure()
        self.q = queue.LifoQueue()
        self.all = [Host(self.dll) for _ in range(n)]
        for h in self.all:
            self.q.put(h)

    def run(self, args, cwd, timeout=120):
        h = self.q.get()
        try:
            try:
                return h.job(args, cwd, timeout)
            except Timeout:
                return h.job(args, cwd, timeout * 3)   # once more, alone, with a longer limit
        finally:
            self.q.put(h)

    def close(self):
        for h in self.all:
            h.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


if __name__ == "__main__":
    print(ensure())
