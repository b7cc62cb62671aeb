"""Runs harness binaries over case ranges and collects what the monitors saw."""
import concurrent.futures as cf
import mmap
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import tempfile
import threading
import time

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=1:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:allocator_may_return_null=0:max_allocation_size_mb=3000:"
                    "handle_abort=0:symbolize=1:print_legend=0:hard_rss_limit_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:symbolize=1",
    "LSAN_OPTIONS": "print_suppressions=0",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1:history_size=4:hard_rss_limit_mb=6000",
}
CASE_TIMEOUT = 40  # seconds without progress; confirmed by running the case alone for twice as long


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def crash_key(err, rc):
    """A stable name for how the process died: kind and innermost /repo function."""
    func = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(:\d+)*(?:\s|$)", err):
        if "/repo/" in m.group(2) or m.group(2).startswith(os.environ.get("VERIF_REPO", "/repo")):
            f = re.sub(r"<.*", "", re.sub(r"\(.*", "", m.group(1)))
            func = f.split(" ")[-1]
            break
    if not func:
        m = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?([\w:~<>]+)[^\n]* (?:\S*/)?include/soro", err)
        func = m.group(1) if m else ""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return f"asan:{m.group(1)}:{func}"
    m = re.search(r"ERROR: LeakSanitizer: ([\w ]+)", err)
    if m:
        return f"leak:{func}"
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
    if m:
        return f"tsan:{m.group(1).strip().replace(' ', '-')}:{func}"
    m = re.search(r"(\S+?):\d+(?::\d+)?: runtime error: ([^\n]+)", err)
    if m:
        kind = re.sub(r"-?\d[\d.e+x-]*|0x[0-9a-f]+", "N", m.group(2))[:80]
        return f"ubsan:{kind}:{os.path.basename(m.group(1))}".replace(" ", "_")
    m = re.search(r"ERROR: monitor: ([^\n]{0,80})", err)
    if m:
        return f"monitor:{re.sub(r'[0-9]+', 'N', m.group(1))}".replace(" ", "_")
    m = re.search(r"([\w./+]+):\d+: [^\n]*Assertion '([^']{0,80})'? failed", err)
    if m:
        return f"libassert:{os.path.basename(m.group(1))}:{m.group(2)}".replace(" ", "_")
    m = re.search(r"^(?:panic|fatal error): ([^\n]{0,80})", err, re.M)
    if m:
        f = re.search(r"^transform-osm/([\w./-]+?)\.(\w+)\(", err, re.M)
        return f"panic:{re.sub(r'[0-9]+', 'N', m.group(1))}:{f.group(2) if f else ''}".replace(" ", "_")
    m = re.search(r"what\(\):\s*([^\n]{0,60})", err)
    if m:
        return f"terminate:{m.group(1)}".replace(" ", "_")
    if rc is not None and rc < 0:
        return f"signal:{signal.Signals(-rc).name}"
    return f"exit:{rc}"


class Result:
    def __init__(self):
        self.ran = self.checks = 0
        self.stats, self.samples, self.viol, self.sigs = {}, [], {}, set()
        self.inconclusive, self.errors = [], []
        self.lock = threading.Lock()
        self.first = 0  # time of the first violation
        self.stop = threading.Event()  # a case hangs: do not wait for others to

    def add_viol(self, key, case, detail, where):
        with self.lock:
            self.first = self.first or time.time()
            v = self.viol.setdefault(key, {"key": key, "count": 0, "cases": []})
            v["count"] += 1
            if len(v["cases"]) < 5:
                v["cases"].append({"case": case, "detail": detail, **where})

    def merge_stats(self, d):
        with self.lock:
            for k, v in d.items():
                self.stats[k] = self.stats.get(k, 0) + v


def _read_progress(path):
    try:
        with open(path, "rb") as f:
            data = f.read(16)
        return struct.unpack("<QQ", data) if len(data) == 16 else (None, 0)
    except OSError:
        return (None, 0)


def run_range(res, exe, variant, prop, seed, lo, hi, thorough, env, work, timeout, depth=0):
    at = lo
    crashes = 0
    while at < hi and not res.stop.is_set():
        d = tempfile.mkdtemp(prefix="run.", dir=work)
        prog, sigs = os.path.join(d, "prog"), os.path.join(d, "sigs")
        scratch = os.path.join(d, "scratch")
        os.makedirs(scratch)
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--from", str(at), "--to", str(hi),
               "--progress", prog, "--sigs", sigs, "--scratch", scratch]
        if thorough:
            cmd.append("--thorough")
        e = {**os.environ, **SAN_ENV, **env, "TMPDIR": scratch}
        if variant == "tsan":
            cmd = ["setarch", "-R", *cmd]
        with open(os.path.join(d, "out"), "wb") as fo, open(os.path.join(d, "err"), "wb") as fe:
            p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=e, cwd=scratch,
                                 start_new_session=True,
                                 preexec_fn=_limit if variant == "rel" else None)
            last, since, hung, dropped = None, time.time(), False, False
            while True:
                try:
                    p.wait(timeout=1.0)
                    break
                except subprocess.TimeoutExpired:
                    if res.first and not thorough and time.time() - res.first > 60:
                        res.stop.set()  # enough seen
                    if res.stop.is_set():
                        dropped = True
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        break
                    cur = _read_progress(prog)
                    if cur != last:
                        last, since = cur, time.time()
                    elif time.time() - since > timeout or os.path.getsize(os.path.join(d, "err")) > 1 << 28:
                        hung = True
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        break
        with open(os.path.join(d, "out"), errors="replace") as f:
            out = f.read()
        with open(os.path.join(d, "err"), errors="replace") as f:
            err = f.read(1 << 20)
        where = {"cmd": " ".join(cmd[:2 if variant != "tsan" else 4] + [f"--prop {prop} --seed {seed}"]),
                 "variant": variant}
        done = False
        for line in out.split("\n"):
            if line.startswith("VIOL|"):
                _, key, case, detail = line.split("|", 3)
                res.add_viol(key, int(case), detail, where)
            elif line.startswith("STAT|"):
                _, k, v = line.split("|")
                res.merge_stats({k: int(v)})
            elif line.startswith("COUNT|"):
                _, n, c = line.split("|")
                with res.lock:
                    res.ran += int(n)
                    res.checks += int(c)
            elif line.startswith("SAMPLE|"):
                _, case, s = line.split("|", 2)
                with res.lock:
                    if len(res.samples) < 60:
                        res.samples.append({"case": int(case), "variant": variant, "what": s})
            elif line == "DONE":
                done = True
        if os.path.exists(sigs):
            with open(sigs, "rb") as f:
                b = f.read()
            b = b[:len(b) // 8 * 8]
            with res.lock:
                res.sigs.update(struct.unpack(f"<{len(b) // 8}Q", b))
        idx, _ = _read_progress(prog)
        rc = p.returncode
        shutil.rmtree(d, ignore_errors=True)
        if dropped or (done and rc == 0):
            return
        if done and rc == 97 and "LeakSanitizer" in err:
            res.add_viol(crash_key(err, rc), lo, err[-1500:], where)
            return
        if rc == 64 or idx is None:
            res.errors.append(f"harness did not start (rc {rc}): {err[-500:]}")
            return
        if hung:
            if depth == 0:
                probe = Result()
                run_range(probe, exe, variant, prop, seed, idx, idx + 1, thorough, env, work,
                          2 * timeout, depth=1)
                if any(k.startswith("hang") for k in probe.viol):
                    res.add_viol("hang", idx, "case does not finish (twice)", where)
                    res.stop.set()
                else:
                    for k, v in probe.viol.items():
                        for cse in v["cases"]:
                            res.add_viol(k, cse["case"], cse["detail"], where)
                    res.ran += probe.ran
            else:
                res.add_viol("hang", idx, "case does not finish", where)
        elif rc == -9 and depth == 0:
            # ended for its use of memory? see whether it is again, alone
            probe = Result()
            run_range(probe, exe, variant, prop, seed, idx, idx + 1, thorough, env, work,
                      2 * timeout, depth=1)
            for k, v in probe.viol.items():
                for cse in v["cases"]:
                    res.add_viol(k, cse["case"], cse["detail"], where)
            res.ran += probe.ran
            res.inconclusive += probe.inconclusive
        elif rc == -9 and variant == "rel":
            res.add_viol("memory", idx, "case needs too much memory (twice)", where)
        elif rc == -9:
            res.inconclusive.append(f"case {idx} [{variant}] was killed from outside")
        else:
            lines = err.strip().split("\n")
            res.add_viol("crash:" + crash_key(err, rc), idx, " / ".join(
                x.strip() for x in lines[:24])[:3000], where)
        crashes += 1
        at = idx + 1
        if crashes >= 12:
            return  # plenty of evidence; stop this range


def run_cases(res, exe, variant, prop, seed, n, thorough, env, work, timeout=CASE_TIMEOUT,
              chunk=None, workers=None):
    workers = workers or os.cpu_count() or 4
    chunk = chunk or max(1, min(5000, (n + workers * 3 - 1) // (workers * 3)))
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        futs = [ex.submit(run_range, res, exe, variant, prop, seed, a, min(n, a + chunk),
                          thorough, env, work, timeout) for a in range(0, n, chunk)]
        for f in futs:
            f.result()
