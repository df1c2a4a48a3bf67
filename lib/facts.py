"""Facts about /repo's current source: generates what the build generates,
extracts the resolved program with tool/fx (clang), caches by content."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, pickle, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (error exit, never a verdict)."""


def sha(*bs):
    h = hashlib.sha256()
    for b in bs:
        h.update(b if isinstance(b, bytes) else b.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tool():
    src = rd(f"{VERIF}/tool/fx.cpp") + rd(f"{VERIF}/tool/build.sh")
    d = f"{BUILD}/tool-{sha(src)}"
    exe = f"{d}/fx"
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        r = subprocess.run([f"{VERIF}/tool/build.sh", exe], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("cannot build the extractor: " + r.stderr[-2000:])
    return exe, sha(src)


def gen():
    """Run the repository's own generators into a private directory and
    normalise the time stamps away.  Returns the directory."""
    work = f"{BUILD}/mk"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    env = dict(os.environ, LC_ALL="C", PYTHONDONTWRITEBYTECODE="1", PERL_HASH_SEED="0", PYTHONHASHSEED="0")
    for k in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS", "MFLAGS"):
        env.pop(k, None)
    r = subprocess.run(["make", "-C", REPO, "--no-print-directory", "CC=gcc", "variant=debug", f"top_builddir={work}",
                        "--eval=.DELETE_ON_ERROR:", "-j1", "gen"], capture_output=True, text=True, env=env)
    if r.returncode:
        raise AnalysisError("the repository's generators failed: " + (r.stdout + r.stderr)[-2000:])
    for p in glob.glob(f"{work}/gen/**/*", recursive=True):
        if os.path.isfile(p):
            t = rd(p)
            n = re.sub(rb"(created by:|@date|libfirm_VERSION_REVISION).*", rb"\1", t)
            if p.endswith("firm_revision.h"):
                n = b'#define libfirm_VERSION_REVISION "x"\n'
            if n != t:
                with open(p, "wb") as f:
                    f.write(n)
    return f"{work}/gen"


def sync(src, dst):
    """Make dst equal to src, touching only what differs."""
    have = {os.path.relpath(p, dst) for p in glob.glob(f"{dst}/**/*", recursive=True) if os.path.isfile(p)}
    want = {os.path.relpath(p, src) for p in glob.glob(f"{src}/**/*", recursive=True) if os.path.isfile(p)}
    for f in have - want:
        os.unlink(f"{dst}/{f}")
    for f in want:
        if f not in have or rd(f"{src}/{f}") != rd(f"{dst}/{f}"):
            os.makedirs(os.path.dirname(f"{dst}/{f}"), exist_ok=True)
            shutil.copyfile(f"{src}/{f}", f"{dst}/{f}")


RES = "/usr/lib/llvm-18/lib/clang/18"


def flags(gendir, config):
    dirs = sorted({os.path.dirname(p) for p in glob.glob(f"{REPO}/ir/*/*.c")})
    dirs += [f"{REPO}/include/libfirm", f"{REPO}/include/libfirm/adt"]
    dirs += sorted({os.path.dirname(p) for p in glob.glob(f"{gendir}/ir/**/*.c", recursive=True)})
    dirs += sorted({os.path.dirname(p) for p in glob.glob(f"{REPO}/ir/be/*/*.c")})
    dirs += [f"{gendir}/include/libfirm", gendir]
    fl = ["-x", "c", "-std=c99", "-fPIC", "-DHAVE_FIRM_REVISION_H", "-fsyntax-only", "-resource-dir", RES, "-Wno-everything"]
    fl += ["-DDEBUG_libfirm"] if config == "debug" else ["-DNDEBUG"]
    return fl + [f"-I{d}" for d in dirs]


def sources(gendir):
    src = sorted(glob.glob(f"{REPO}/ir/*/*.c")) + sorted(glob.glob(f"{REPO}/ir/be/*/*.c"))
    src += sorted(glob.glob(f"{gendir}/ir/**/*.c", recursive=True))
    return src


def mangle(p):
    return p.replace("/", "%")


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(f"{BUILD}/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def prepare(config="debug"):
    """Returns (gendir, {file: json path})."""
    with Lock():
        exe, th = tool()
        g = gen()
        gendir = f"{BUILD}/gen"
        os.makedirs(gendir, exist_ok=True)
        sync(g, gendir)
        fl = flags(gendir, config)
        srcs = sources(gendir)
        hdrs = [p for pat in (f"{REPO}/ir/**/*", f"{REPO}/include/**/*", f"{gendir}/**/*") for p in glob.glob(pat, recursive=True)
                if os.path.isfile(p) and not p.endswith((".c", ".pl", ".pm", ".py", ".pyc"))]
        ep = hashlib.sha256()
        for p in sorted(hdrs):
            ep.update(p.encode() + b"\0" + rd(p) + b"\0")
        epoch = sha(th, "\n".join(fl), ep.hexdigest())
        cache = f"{BUILD}/facts/{config}-{epoch}"
        hd = f"{cache}/hdr"
        if not os.path.isdir(cache):
            # keep at most two other epochs around
            old = sorted(glob.glob(f"{BUILD}/facts/{config}-*"), key=os.path.getmtime)
            for d in old[:-2]:
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(hd, exist_ok=True)
        done = f"{cache}/hdr.ok"
        todo, res = [], {}
        for s in srcs:
            d = f"{cache}/{sha(s, rd(s))}"
            j = f"{d}/{mangle(s)}.json"
            res[s] = j
            if not os.path.exists(j) or not os.path.exists(done):
                todo.append((s, d))
        if todo:
            full = not os.path.exists(done)
            if full:
                shutil.rmtree(hd); os.makedirs(hd)
            todo.sort(key=lambda sd: -os.path.getsize(sd[0]))
            n = min(8, len(todo))
            stage = f"{cache}/stage"
            shutil.rmtree(stage, ignore_errors=True); os.makedirs(stage)

            def run(batch):
                r = subprocess.run([exe, "--out", stage, "--hdr", hd, "--root", f"{REPO}/", "--root", f"{gendir}/"] + [s for s, _ in batch] + ["--"] + fl,
                                   capture_output=True, text=True)
                return r.returncode, r.stderr
            chunks = [[] for _ in range(n * 6)] if len(todo) > 40 else [[] for _ in range(n)]
            for i, t in enumerate(todo):
                chunks[i % len(chunks)].append(t)
            with ThreadPoolExecutor(8) as ex:
                outs = list(ex.map(run, [c for c in chunks if c]))
            for rc, err in outs:
                if rc:
                    raise AnalysisError("extraction failed: " + err[-3000:])
            for s, d in todo:
                p = f"{stage}/{mangle(s)}.json"
                if not os.path.exists(p):
                    raise AnalysisError(f"no facts for {s}")
                os.makedirs(d, exist_ok=True)
                os.rename(p, res[s])
            shutil.rmtree(stage, ignore_errors=True)
            with open(done, "w"):
                pass
        for p in glob.glob(f"{hd}/*.json"):
            res[os.path.basename(p)[:-5].replace("%", "/")] = p
        os.utime(cache)
        return gendir, res
