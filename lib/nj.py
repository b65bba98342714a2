"""Build and drive the nj conformance driver."""
import json, os, subprocess, tempfile, shutil, atexit, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NOJA_REPO", "/repo")
WORK = None


def workdir():
    global WORK
    if WORK is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        keep = os.environ.get("NOJA_WORK")
        WORK = keep or tempfile.mkdtemp(prefix="nojav.", dir="/tmp")
        os.makedirs(WORK, exist_ok=True)
        if not keep:
            atexit.register(lambda: shutil.rmtree(WORK, ignore_errors=True))
    return WORK


_built = {}


def build(variant="asan"):
    """Compile the library in REPO's working tree; returns the build directory."""
    if variant not in _built:
        out = os.path.join(workdir(), "build_" + variant)
        p = subprocess.run(["bash", os.path.join(VERIF, "lib", "build.sh"), REPO, out, variant],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError("build failed:\n" + p.stdout.decode(errors="replace")[-3000:])
        _built[variant] = out
    return _built[variant]


def tobytes(x):
    return x if isinstance(x, bytes) else x.encode("utf-8", "surrogateescape")


def encode(scn):
    """scn: dict with 'src', optional 'stdin', 'opts' dict"""
    src = tobytes(scn["src"])
    sin = tobytes(scn.get("stdin", b""))
    o = dict(scn.get("opts", {}))
    h = " ".join("%s=%s" % kv for kv in o.items())
    return ("S %s len=%d inlen=%d\n" % (h, len(src), len(sin))).encode() + src + b"\n" + sin + b"\n"


def fix(x):
    if isinstance(x, str):
        return x.encode("latin1").decode("utf-8", "surrogateescape")
    if isinstance(x, list):
        return [fix(y) for y in x]
    if isinstance(x, dict):
        return {k: fix(v) for k, v in x.items()}
    return x


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:symbolize=1",
           LC_ALL="C.UTF-8")


_n = [0]
FILL = [0x5c, 0x27, 0x00, 0xbe, 0x39, 0x22, 0x61, 0xff]


def env(n):
    """The environment of the n-th process: fresh memory holds a different byte
    in each, so that a result which depends on uninitialised memory varies."""
    b = FILL[n % len(FILL)]
    return dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + ":max_allocation_size_mb=4000:max_malloc_fill_size=65536:malloc_fill_byte=%d" % b,
                MALLOC_PERTURB_=str((b ^ 0xff) or 1))


def run_batch(bdir, scns):
    _n[0] += 1
    n = _n[0]
    job = os.path.join(workdir(), "job%d_%d" % (os.getpid(), n))
    with open(job, "wb") as f:
        for s in scns:
            f.write(encode(s))
    res = job + ".out"
    p = subprocess.run([os.path.join(bdir, "nj"), job, res], env=env(n),
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=workdir())
    out = []
    with open(res, "rb") as f:
        for line in f:
            out.append(fix(json.loads(line)))
    os.unlink(job); os.unlink(res)
    if p.returncode:
        raise RuntimeError("nj exited with %d: %s" % (p.returncode, p.stderr[:500]))
    return out


def run(scns, variant="asan", jobs=8, groups=None):
    """Run scenarios, in order.  `groups`: list of lists that must stay together
    (chain/nest).  Returns a flat list of results."""
    bdir = build(variant)
    if groups is None:
        groups = [[s] for s in scns]
    if not groups:
        return []
    n = max(1, min(len(groups), jobs * 4))
    step = (len(groups) + n - 1) // n
    chunks = [groups[i:i + step] for i in range(0, len(groups), step)]
    import threading
    lock = threading.Lock()

    def one(ch):
        return run_batch(bdir, [s for g in ch for s in g])
    with ThreadPoolExecutor(jobs) as ex:
        return [r for rs in ex.map(one, chunks) for r in rs]


def run1(src, variant="asan", stdin=b"", **opts):
    return run_batch(build(variant), [{"src": src, "stdin": stdin, "opts": opts}])[0]
