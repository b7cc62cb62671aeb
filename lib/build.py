"""Builds harness binaries from /repo's current working tree.

Objects are cached by content: an object is reused only when the compiler
command line and the bytes of every file it included last time are unchanged.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(ROOT, "build")
CXX = "g++-12"

COMMON = [
    "-std=gnu++23", "-fcoroutines", "-DSTD",
    "-DCEREAL_SERIALIZE_FUNCTION_NAME=cereal_serialize",
    "-include", f"{ROOT}/shim/prelude.h",
    f"-I{ROOT}/shim", f"-I{REPO}/include", f"-I{ROOT}/harness",
    f"-I{REPO}/web/server/include", f"-I{REPO}", "-w",
]
VARIANTS = {
    # memory errors and undefined behaviour are fatal, release semantics
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG",
             "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    # assertions of the code base itself are on (they throw), plus ASan
    "dbg": ["-O1", "-g1", "-fno-omit-frame-pointer",
            "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"],
    # release semantics at speed, libstdc++ assertions as monitors
    "rel": ["-O2", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"],
}
LIBS = ["-lpugixml", "-lfmt", "-ldate-tz", "-lpthread"]

_sha, _lock = {}, threading.Lock()


def sha_file(path):
    with _lock:
        if path in _sha:
            return _sha[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _lock:
        _sha[path] = h
    return h


def sha_text(t):
    return hashlib.sha256(t.encode()).hexdigest()


class BuildError(Exception):
    pass


def compile_one(src, variant, extra=()):
    """Returns the path of an up-to-date object of src."""
    cache = os.path.join(OUT, "cache")
    os.makedirs(cache, exist_ok=True)
    cmd = [CXX, *COMMON, *VARIANTS[variant], *extra, "-c", src]
    name = sha_text(json.dumps(cmd))[:32]
    idx = os.path.join(cache, name + ".deps")

    def content_key(deps):
        return sha_text(name + "".join(d + sha_file(d) for d in deps))[:32]

    if os.path.exists(idx):
        try:
            with open(idx) as f:
                for deps in json.load(f):
                    obj = os.path.join(cache, content_key(deps) + ".o")
                    if os.path.exists(obj):
                        return obj
        except (ValueError, OSError):
            pass
    tmp = os.path.join(cache, f"tmp.{os.getpid()}.{name}")
    r = subprocess.run([*cmd, "-MD", "-MF", tmp + ".d", "-o", tmp + ".o"],
                       capture_output=True, text=True)
    if r.returncode != 0:
        for e in (".d", ".o"):
            if os.path.exists(tmp + e):
                os.unlink(tmp + e)
        raise BuildError(f"cannot compile {src} [{variant}]:\n" + r.stderr[-4000:])
    with open(tmp + ".d") as f:
        text = f.read().replace("\\\n", " ")
    os.unlink(tmp + ".d")
    deps = sorted(set(text.split(":", 1)[1].split()))
    deps = [d for d in deps if not d.startswith("/usr/")]
    obj = os.path.join(cache, content_key(deps) + ".o")
    os.replace(tmp + ".o", obj)
    old = []
    if os.path.exists(idx):
        try:
            with open(idx) as f:
                old = json.load(f)
        except (ValueError, OSError):
            old = []
    lists = [deps] + [d for d in old if d != deps]
    with open(tmp + ".i", "w") as f:
        json.dump(lists[:8], f)
    os.replace(tmp + ".i", idx)
    return obj


def repo_sources():
    out = []
    for d, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith(".cc") and "gpu" not in d:
                out.append(os.path.join(d, f))
    return sorted(out)


def web_sources():
    """The server without its main and without the parts on top of the tile library."""
    out = []
    for d, _, files in os.walk(os.path.join(REPO, "web/server/src")):
        for f in sorted(files):
            if f.endswith(".cc") and f not in ("main.cc", "import.cc"):
                out.append(os.path.join(d, f))
    return sorted(out)


BASE_CC = ["src/rolling_stock/rolling_stock_error.cc",
           "src/timetable/parsers/kss/kss_error.cc",
           "src/timetable/parsers/route_transform_error.cc",
           "src/timetable/timetable_error.cc", "src/utls/unixtime.cc"]


def sources_of(target):
    spec = TARGETS[target]
    if spec["repo"] == "web":
        return repo_sources() + web_sources()
    if spec["repo"] == "all":
        return repo_sources()
    return [p for p in (os.path.join(REPO, s) for s in spec["repo"])
            if os.path.exists(p)]


def _t(harness, repo, extra=()):
    return {"harness": harness, "repo": repo, "extra": list(extra)}


TYPE_CC = ["src/infrastructure/graph/type.cc", "src/infrastructure/graph/type_set.cc",
           "src/infrastructure/exclusion/exclusion_set.cc"]
GEO_CC = ["src/utls/coordinates/cartesian.cc", "src/utls/coordinates/gps.cc"]

TARGETS = {}


def define_targets():
    # one small program per file of utility cases
    for p in sorted(glob.glob(f"{ROOT}/harness/u_*.cc")):
        with open(p) as f:
            first = f.readline()
        more = first.split("links:")[1].split() if "links:" in first else []
        TARGETS[os.path.basename(p)[:-3]] = _t(
            ["utls_main.cc", os.path.basename(p)], BASE_CC + GEO_CC + TYPE_CC + more)
    # one program per file of cases on the whole code base
    for p in sorted(glob.glob(f"{ROOT}/harness/m_*.cc")):
        TARGETS[os.path.basename(p)[:-3]] = _t(
            ["utls_main.cc", os.path.basename(p)], "all")
    # and on the server
    for p in sorted(glob.glob(f"{ROOT}/harness/w_*.cc")):
        TARGETS[os.path.basename(p)[:-3]] = _t(
            ["utls_main.cc", os.path.basename(p)], "web")


GO_TOOL = "tools/generate-osm"
# the libraries of the tool are absent offline: stand-ins of what it uses
GO_STUBS = {"github.com/pkg/errors": ("v0.9.1", "errors"),
            "github.com/urfave/cli/v2": ("v2.24.4", "cli"),
            "golang.org/x/net": ("v0.8.0", "charset")}


def build_go(target, variant):
    """The tool and the harness beside it, one program, with the real compiler."""
    tool = os.path.join(REPO, GO_TOOL)
    files = {}
    for d, dirs, names in os.walk(tool):
        dirs[:] = sorted(x for x in dirs if x not in ("temp", "testdata") and not x.startswith("."))
        for n in sorted(names):
            if n.endswith("_test.go") or n in ("go.sum", "README.md") or n.startswith("."):
                continue
            files[os.path.relpath(os.path.join(d, n), tool)] = os.path.join(d, n)
    for p in sorted(glob.glob(f"{ROOT}/go/harness/*.go")):
        files[os.path.basename(p)] = p
    stubs = sorted(glob.glob(f"{ROOT}/go/stubs/**/*.*", recursive=True))
    flags = ["-race"] if variant == "gorace" else []
    key = sha_text(json.dumps([flags] + [k + sha_file(v) for k, v in files.items()] +
                              [s + sha_file(s) for s in stubs]))[:24]
    exe = os.path.join(OUT, "bin", f"{target}.{variant}.{key}")
    if os.path.exists(exe):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    for old in glob.glob(os.path.join(OUT, "bin", f"{target}.{variant}.*")):
        os.unlink(old)
    src = os.path.join(OUT, f"go-src.{variant}.{os.getpid()}")
    shutil.rmtree(src, ignore_errors=True)
    try:
        for rel, p in files.items():
            to = os.path.join(src, rel)
            os.makedirs(os.path.dirname(to), exist_ok=True)
            shutil.copyfile(p, to)
        module, version = "transform-osm", "1.19"
        with open(os.path.join(tool, "go.mod")) as f:
            for line in f:
                w = line.split()
                if len(w) == 2 and w[0] == "module":
                    module = w[1]
                elif len(w) == 2 and w[0] == "go":
                    version = w[1]
        with open(os.path.join(src, "go.mod"), "w") as f:
            f.write(f"module {module}\n\ngo {version}\n\n")
            for m, (v, d) in GO_STUBS.items():
                f.write(f"require {m} {v}\nreplace {m} => {ROOT}/go/stubs/{d}\n")
        env = {**os.environ, "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOSUMDB": "off",
               "GOTOOLCHAIN": "local", "GOWORK": "off",
               "GOCACHE": os.path.join(OUT, "go-cache"), "GOPATH": os.path.join(OUT, "go-path")}
        env.setdefault("HOME", OUT)
        tmp = exe + f".tmp{os.getpid()}"
        r = subprocess.run(["go", "build", *flags, "-o", tmp, "."], cwd=src, env=env,
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(f"cannot build {target} [{variant}]:\n" + r.stderr[-4000:])
        os.replace(tmp, exe)
    finally:
        shutil.rmtree(src, ignore_errors=True)
    return exe


def build(wanted):
    """wanted: iterable of (target, variant). Returns {(t, v): binary}."""
    if not TARGETS:
        define_targets()
    go = {(t, v): build_go(t, v) for t, v in sorted(set(wanted)) if v.startswith("go")}
    wanted = sorted(set(w for w in wanted if w not in go))
    if not wanted:
        return go
    jobs = {}
    for t, v in wanted:
        for s in [os.path.join(ROOT, "harness", h) for h in TARGETS[t]["harness"]]:
            jobs[(s, v)] = None
        for s in sources_of(t):
            jobs[(s, v)] = None
    errors = []
    # biggest sources first keeps the cores busy
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = {ex.submit(compile_one, s, v): (s, v) for s, v in order}
        for f in cf.as_completed(futs):
            try:
                jobs[futs[f]] = f.result()
            except BuildError as e:
                errors.append(str(e))
    if errors:
        raise BuildError("\n".join(errors[:3]))
    bins = {}
    for t, v in wanted:
        objs = [jobs[(os.path.join(ROOT, "harness", h), v)] for h in TARGETS[t]["harness"]]
        objs += [jobs[(s, v)] for s in sources_of(t)]
        link = [CXX, *[o for o in VARIANTS[v] if o.startswith(("-fsan", "-g"))]]
        key = sha_text(json.dumps([link, objs]))[:24]
        exe = os.path.join(OUT, "bin", f"{t}.{v}.{key}")
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            for old in glob.glob(os.path.join(OUT, "bin", f"{t}.{v}.*")):
                os.unlink(old)
            tmp = exe + f".tmp{os.getpid()}"
            r = subprocess.run([*link, *objs, "-o", tmp, *LIBS],
                               capture_output=True, text=True)
            if r.returncode != 0 and TARGETS[t]["repo"] not in ("all", "web"):
                # code may have moved to another source file: link everything
                TARGETS[t]["repo"] = "all"
                bins.update(build([(t, v)]))
                continue
            if r.returncode != 0:
                raise BuildError(f"cannot link {t} [{v}]:\n" + r.stderr[-4000:])
            os.replace(tmp, exe)
        bins[(t, v)] = exe
    return {**bins, **go}


def prune(max_mb=1500):
    cache = os.path.join(OUT, "cache")
    files = sorted((os.path.getmtime(p), os.path.getsize(p), p)
                   for p in glob.glob(cache + "/*.o"))
    total = sum(f[1] for f in files)
    for _, size, p in files:
        if total < max_mb << 20:
            break
        os.unlink(p)
        total -= size
