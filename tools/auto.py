#!/usr/bin/env python3
"""auto.py OUT N SEED [PATHRE]: generated one-token changes of the sources; which ones does no check report?"""
import os, re, random, subprocess, sys, shutil, json, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT, NM, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
PRE = sys.argv[4] if len(sys.argv) > 4 else "."
sys.path.insert(0, V + "/sa")
import core, rules.load
SKIP = re.compile(r"test|errors\.rs|lib\.rs|mod\.rs|dependencies|mock")
SLOW = ["C38", "C04", "C09", "C37", "C26", "C34", "C29", "C27", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C31", "C32"]
OPS = [(r" <= ", " < "), (r" < ", " <= "), (r" >= ", " > "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "),
       (r"_floor\(", "_ceil("), (r"_ceil\(", "_floor("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"SCALAR_7", "SCALAR_9"), (r"SCALAR_9", "SCALAR_7"),
       (r"&from\b", "&spender"), (r"&spender\b", "&from"), (r"&to\b", "&from"), (r"&from\b", "&to"), (r"b_rate", "d_rate"), (r"d_rate", "b_rate"), (r"b_supply", "d_supply"),
       (r"d_supply", "b_supply"), (r"c_factor", "l_factor"), (r"l_factor", "c_factor"), (r"\.collateral\b", ".supply"), (r"\.liabilities\b", ".collateral"), (r"\.lot\b", ".bid"), (r"\.bid\b", ".lot"),
       (r"persistent\(\)", "temporary()"), (r"temporary\(\)", "persistent()"), (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"_SHARED", "_USER"), (r"_USER", "_SHARED"),
       (r"require_auth", "clone"), (r"checked_sub", "checked_add"), (r"if (.*) \{$", r"if true || (\1) {"), (r"if (.*) \{$", r"if !(\1) {"), (r"if (.*) \{$", r"if (\1) && false {")]


HITS = {}
ANCH = {json.loads(l)["id"]: l for l in open(V + "/properties.jsonl")}


def gen():
    out = []
    for d in ("pool", "backstop", "emitter", "pool-factory"):
        for base, _, fs in os.walk("/repo/%s/src" % d):
            for f in fs:
                p = os.path.relpath(os.path.join(base, f), "/repo")
                if not f.endswith(".rs") or SKIP.search(p) or not re.search(PRE, p):
                    continue
                ls = open("/repo/" + p).read().split("\n")
                for i, l in enumerate(ls):
                    if "#[cfg(test)]" in l or re.match(r"mod tests", l):
                        break
                    t = l.strip()
                    if not t or t.startswith(("//", "use ", "#[", "pub fn", "fn ", "impl", "pub struct", "pub enum", "pub trait")):
                        continue
                    if os.environ.get("RARE"):
                        one = t.endswith(";") and not t.startswith(("let ", "return", "const", "pub const", "type", "}")) and t.count("(") == t.count(")") and not ls[i - 1].strip().endswith(("=", "(", ",", ".")) and not t.startswith(".")
                        if one:
                            out.append((p, i, "if e.ledger().sequence() != 7 { %s }" % t))
                        if re.match(r"(for|while) .*\{$", t):
                            for w in ("break", "continue"):
                                out.append((p, i, l + " if e.ledger().sequence() == 7 { %s; }" % w))
                        m = re.match(r"if (.*) \{$", t)
                        if m and "let " not in t:
                            out.append((p, i, "if (%s) && e.ledger().sequence() != 7 {" % m.group(1)))
                            out.append((p, i, "if (%s) || e.ledger().sequence() == 7 {" % m.group(1)))
                        if i and ls[i - 1].strip().endswith("{") and re.search(r"\bfn ", "\n".join(ls[max(0, i - 8):i])) and not re.search(r"-> ", ls[i - 1]):
                            out.append((p, i, "if e.ledger().sequence() == 7 { return; } " + l))
                        continue
                    for a, b in OPS:
                        for m in re.finditer(a, l):
                            n = l[:m.start()] + m.expand(b) + l[m.end():]
                            out.append((p, i, n))
                    for m in re.finditer(r"(?<![\w.])(\d[\d_]*)(?![\w.])", l):
                        v = m.group(1).replace("_", "")
                        for w in {str(int(v) + 1), str(max(int(v) - 1, 0)), str(int(v) * 10)} - {v}:
                            out.append((p, i, l[:m.start()] + w + l[m.end():]))
                    if t.endswith(";") and not t.startswith(("let ", "return", "const", "pub const", "type", "}")) and t.count("(") == t.count(")") and not ls[i - 1].strip().endswith(("=", "(", ",", ".")) and not t.startswith("."):
                        out.append((p, i, "    // removed"))
    return out


def run(job):
    k, (p, i, n), w = job
    S = "/tmp/au%s/%d" % (SEED, w)
    f = os.path.join(S, p)
    src = open(f).read()
    ls = src.split("\n")
    old = ls[i]
    ls[i] = n
    open(f, "w").write("\n".join(ls))
    env = dict(os.environ, BLEND_REPO=S)
    crate = p.split("/")[0].replace("-", "_")
    try:
        ps = [q for q in sorted(core.PROPS) if crate in core.PROPS[q][1]]
        ps.sort(key=lambda q: (-HITS.get((p, q), 0), p not in ANCH.get(q, ""), q in SLOW, SLOW.index(q) if q in SLOW else 0, len(core.PROPS[q][1])))
        for q in ps:
            try:
                r = subprocess.run([sys.executable, V + "/check.py", q], env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                res = ("timeout", q)
                break
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                HITS[(p, q)] = HITS.get((p, q), 0) + 1
                res = ("caught", q)
                break
            if r.returncode:
                res = ("nobuild" if "error" in r.stderr + r.stdout and "could not compile" in r.stderr + r.stdout else "rc%d" % r.returncode, q)
                break
        else:
            res = ("SURVIVED", "")
    finally:
        open(f, "w").write(src)
    with open(OUT, "a") as o:
        o.write("%s %s %s:%d | %s | %s\n" % (res + (p, i + 1, old.strip(), n.strip())))


def main():
    W = int(os.environ.get("JOBS", "4"))
    ms = gen()
    print(len(ms), "candidates")
    random.Random(SEED).shuffle(ms)
    ms = ms[:NM]
    import queue, threading
    q = queue.Queue()
    for k, m in enumerate(ms):
        q.put((k, m))

    def work(w):
        S = "/tmp/au%s/%d" % (SEED, w)
        shutil.rmtree(S, ignore_errors=True)
        os.makedirs(S)
        a = subprocess.Popen(["git", "-C", "/repo", "archive", "HEAD"], stdout=subprocess.PIPE)
        subprocess.run(["tar", "x", "-C", S], stdin=a.stdout)
        while True:
            try:
                k, m = q.get_nowait()
            except queue.Empty:
                return
            run((k, m, w))
    ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree("/tmp/au%s" % SEED, ignore_errors=True)


main()
