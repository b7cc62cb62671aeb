#!/usr/bin/env python3
"""mutate.py WORKDIR OUT [--files RE] [--props P,..] [--per N] [--seed N] [--jobs N]

Mutation test of the checks: applies small random edits to copies of the
repository, one at a time, and runs the checks of the properties anchored in
the edited file against each. Prints the edits that no check noticed. For
development only; no check uses it."""
import argparse
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SWAPS = [
    (r" <= ", " < "), (r" >= ", " > "), (r" < ", " <= "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
    (r"\+= ", "-= "), (r"-= ", "+= "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bfront\b", "back"),
    (r"\bback\b", "front"), (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"), (r"\bany_of\b", "all_of"),
    (r"\ball_of\b", "any_of"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"\bfrom\b", "to"), (r"\bto\b", "from"),
    (r"\bfrom_\b", "to_"), (r"\bto_\b", "from_"), (r"\bif \((?!constexpr)(.*)\) \{$", r"if (!(\1)) {"),
    (r"\breturn !", "return "), (r"\+\+(\w)", r"--\1"), (r"\b(\d\d+)\b", lambda m: str(int(m.group(1)) + 1)),
    (r"std::floor", "std::ceil"), (r"std::ceil", "std::floor"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"),
    (r"std::begin", "std::end"), (r"\brising\b", "falling"), (r"<<=? ", ">> "),
    (r"\bif (?!\()([^;:]*) \{$", r"if !(\1) {"), 
    (r" \| ", " & "), (r" & (?=\w)", " | "), (r" % ", " / "), (r"~", ""), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
]
SKIP = re.compile(r"^\s*(//|\*|#|using |namespace|template|import|fmt\.Print|static_assert|utls::sassert|sassert|utls::ensure|utl::verify|uLOG|friend|struct|class|public|private)")


NOISE = re.compile(r"enable_if|\.reserve\(|= default|= delete|scoped_timer|error::|stats|std::clog|std::cout|using_[a-z]+_type|"
                   r"requires |_cat\w*::|^\s*\"[^\"]*\"[,)]|noexcept\(|decltype|shrink_to_fit|std::swap\(")


def mutants(path):
    with open(path) as f:
        lines = f.read().split("\n")
    out = []
    for i, l in enumerate(lines):
        code = l.split("//")[0]
        if SKIP.match(l) or NOISE.search(l) or not code.strip() or "template" in code or "include" in code:
            continue
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():] if isinstance(b, str) else \
                    code[:m.start()] + b(m) + code[m.end():]
                if new != code:
                    out.append((i, l, new))
        if re.match(r"^\s+[\w.:>*\[\]()+-]+.*;$", code) and not re.match(
                r"^\s*(return|auto|const|using|case|break|continue|std::\w+(<.*>)? \w+|[\w:<>]+ (const )?\w+( =|;|\{))", code):
            out.append((i, l, re.match(r"^\s*", l).group(0) + ";"))
        if re.match(r"^\s*(continue|return);$", code):
            out.append((i, l, ";"))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("work")
    ap.add_argument("out")
    ap.add_argument("--files", default=".")
    ap.add_argument("--props", default="")
    ap.add_argument("--per", type=int, default=25)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=3)
    a = ap.parse_args()
    anchors = {}
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            full = os.path.join("/repo", f)
            fs = [f] if os.path.isfile(full) else [
                os.path.relpath(os.path.join(d, x), "/repo") for d, _, xs in os.walk(full) for x in xs
                if x.endswith((".cc", ".h", ".go")) and not x.endswith("_test.go")]
            for x in fs:
                if p["id"] not in anchors.setdefault(x, []):
                    anchors[x].append(p["id"])
    # headers without an anchor: the properties of the harnesses that include them
    import sys
    sys.path.insert(0, os.path.join(ROOT, "lib"))
    import props as P
    for d, _, fs in os.walk("/repo/include/soro/utls"):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), "/repo")
            if rel in anchors:
                continue
            for h in sorted(os.listdir(os.path.join(ROOT, "harness"))):
                with open(os.path.join(ROOT, "harness", h)) as t:
                    if rel[len("include/"):] in t.read():
                        use = [q for q, s in P.PROPS.items() if any(r[0] == h[:-3] for r in s["runs"])]
                        anchors.setdefault(rel, []).extend(q for q in use if q not in anchors.get(rel, []))
            if rel not in anchors:
                print("no check includes", rel)
    rnd = random.Random(a.seed)
    todo = []
    for f, props in sorted(anchors.items()):
        if not re.search(a.files, f) or not os.path.isfile(os.path.join("/repo", f)):
            continue
        props = a.props.split(",") if a.props else props
        m = mutants(os.path.join("/repo", f))
        rnd.shuffle(m)
        todo += [(f, props, x) for x in m[:a.per]]
    rnd.shuffle(todo)
    lock = threading.Lock()
    slots = []
    for k in range(a.jobs):
        d = os.path.join(a.work, str(k))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        subprocess.run(["git", "clone", "-q", ROOT, d + "/verif"], check=True)
        slots.append(d)
    count = {}
    log = open(a.out, "a")

    def note(kind, f, i, old, new, extra=""):
        with lock:
            count[kind] = count.get(kind, 0) + 1
            if kind in ("SURVIVED", "ODD"):
                log.write(f"{kind} {f}:{i + 1} {extra}\n  - {old.strip()}\n  + {new.strip()}\n")
            log.flush()
            with open(a.out + ".count", "w") as c:
                json.dump({**count, "of": len(todo)}, c)

    def one(job):
        f, props, (i, old, new) = job
        with lock:
            d = slots.pop()
        try:
            p = os.path.join(d, "repo", f)
            with open(p) as h:
                text = h.read().split("\n")
            if text[i] != old:
                return
            text[i] = new
            with open(p, "w") as h:
                h.write("\n".join(text))
            verdict, why = "SURVIVED", []
            for q in props:
                try:
                    r = subprocess.run(["python3", "check.py", q], cwd=d + "/verif", capture_output=True, text=True,
                                       timeout=900, env={**os.environ, "VERIF_REPO": d + "/repo"})
                except subprocess.TimeoutExpired:
                    verdict, why = "ODD", why + [q + ": timeout"]
                    continue
                if r.returncode == 1:
                    verdict = "CAUGHT"
                    break
                if "build error" in r.stdout:
                    verdict = "INVALID"
                    break
                if r.returncode != 0:
                    verdict, why = "ODD", why + [q + ": " + r.stdout.strip().split("\n")[-1][:200]]
            note(verdict, f, i, old, new, " ".join(props) + " " + "; ".join(why))
        finally:
            subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
            with lock:
                slots.append(d)

    with cf.ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, todo))
    print(count)


if __name__ == "__main__":
    main()
