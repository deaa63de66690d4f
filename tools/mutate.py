"""Small random changes to the code under test: which of those that the existing tests accept do the checks notice?
usage: mutate.py N SEED OUT [path substring...]     (everything happens in scratch copies under /tmp)"""
import io, json, os, random, re, subprocess, sys, tokenize, shutil
from concurrent.futures import ThreadPoolExecutor

REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = [
    ("d7a/alp/command.py", "C01 C02 C08 C09 C30 C31 C32 C28 C36 C29"),
    ("d7a/alp/parser.py", "C02 C03 C07 C08 C10 C25 C14"),
    ("d7a/alp/operands/length.py", "C04 C01 C29 C31"), ("d7a/alp/operands/offset.py", "C04 C01 C29 C31"),
    ("d7a/alp/operands/query.py", "C10 C29 C30 C31"), ("d7a/alp/operations/break", "C10 C29 C30 C31"),
    ("d7a/alp/operands/interface", "C07 C08 C29 C30 C31"), ("d7a/alp/operands/lora", "C07 C29 C30 C31"),
    ("d7a/alp/operations/responses", "C25 C01 C02 C31 C29"),
    ("d7a/alp/", "C01 C02 C07 C08 C25 C09 C29 C30 C31 C03"),
    ("d7a/sp/status", "C08 C29 C31 C30"), ("d7a/sp/", "C06 C07 C09 C29 C30 C31"),
    ("d7a/d7anp/addressee", "C06 C07 C08 C29 C31 C18"), ("d7a/d7anp", "C18 C19 C29 C31"), ("d7a/d7atp", "C18 C19 C29 C31"),
    ("d7a/dll/access_profile", "C27 C23 C24 C29 C31"), ("d7a/dll/sub_profile", "C27 C23 C29 C31"), ("d7a/dll/background", "C20 C19 C29 C31"),
    ("d7a/dll/", "C18 C19 C21 C20 C29 C31"), ("d7a/fs/", "C22 C29 C31 C01 C02"),
    ("d7a/phy/channel_status", "C27 C24 C29 C31"), ("d7a/phy/subband", "C27 C29 C31"), ("d7a/phy/", "C26 C27 C29 C31"),
    ("d7a/serial", "C13 C12 C15 C17 C11 C14 C16"), ("d7a/support/Crc", "C16 C11"), ("d7a/support/schema", "C29"),
    ("d7a/support/serial", "C30"), ("d7a/system_files/system_file", "C28 C25 C29"), ("d7a/system_files/", "C23 C24 C25 C28 C29 C31"),
    ("d7a/types", "C05 C06 C29 C31"), ("modem/", "C32 C33 C34 C35 C36 C39"), ("tools/", "C36"), ("d7a/parse_error", "C03"),
]
SWAP = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==", "+": "-", "-": "+", "<<": ">>", ">>": "<<", "&": "|", "|": "&",
        "+=": "-=", "*": "+", "and": "or", "or": "and", "True": "False", "False": "True", "is": "is not", "not": "", "**": "*", "/": "*", "%": "/"}


def sites(path, text):
    out = []
    lines = text.split("\n")
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(text).readline))
    except Exception:
        return out
    for i, t in enumerate(toks):
        (r, c), (r2, c2) = t.start, t.end
        if r != r2: continue
        new = []
        if t.type in (tokenize.OP, tokenize.NAME) and t.string in SWAP:
            if t.string == "*" and toks[i - 1].string in ("(", ",") or t.string == "**" and toks[i - 1].string in ("(", ","): continue
            new.append(SWAP[t.string])
        elif t.type == tokenize.NUMBER:
            try: v = int(t.string, 0)
            except Exception: continue
            new += [str(v + 1)] + ([str(v - 1)] if v else [])
        elif t.type == tokenize.STRING:
            m = re.search(r"(uint|int|bool|pad|bytes|hex)(be)?(:\d+)?", t.string)
            if m and len(t.string) < 24:
                s = t.string
                for a, b in (("uintbe", "uintle"), ("uint:", "int:"), ("int:8", "int:7"), ("int:16", "uintle:16")):
                    if a in s: new.append(s.replace(a, b, 1))
                n = re.search(r":(\d+)", s)
                if n: new.append(s.replace(n.group(0), ":%d" % (int(n.group(1)) + 8), 1))
        for x in new:
            out.append((path, r, lines[r - 1][:c] + x + lines[r - 1][c2:]))
    depth = 0
    starts = {}
    for t in toks:
        if t.type == tokenize.OP and t.string in "([{": depth += 1
        if t.type == tokenize.OP and t.string in ")]}": depth -= 1
        if t.type == tokenize.NEWLINE and depth == 0: starts[t.end[0]] = True
    for i, l in enumerate(lines):
        s = l.strip()
        if re.match(r"(self\.\w+(\.\w+)* *[-+]?= |\w+ = |raise |yield |for .*yield|\w+(\.\w+)*\(.*\)$|assert |return |continue|break)", s) and i + 1 in starts and not s.endswith((",", "(", ":")) and s.count("(") == s.count(")") \
                and s.count("[") == s.count("]") and s.count("{") == s.count("}") and s.count('"') % 2 == 0 and s.count("'") % 2 == 0:
            out.append((path, i + 1, l[:len(l) - len(l.lstrip())] + "pass"))
        m = re.match(r"(\s*)(if|while) (.*):$", l)
        if m: out.append((path, i + 1, "%s%s not (%s):" % m.groups()))
    return [s for s in out if not lines[s[1] - 1].lstrip().startswith(("#", "import", "from", "print", '"'))]


def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(job):
    n, (path, line, new) = job
    w = "/tmp/mut%d" % n
    sh("rm -rf %s && cp -a %s %s" % (w, REPO, w))
    try:
        text = open(w + "/" + path).read().split("\n")
        old = text[line - 1]
        text[line - 1] = new
        open(w + "/" + path, "w").write("\n".join(text))
        t = sh("timeout 120 /tmp/fulltest.sh " + w).stdout.split("\n")
        r = {"path": path, "line": line, "old": old, "new": new}
        if t[0].strip() != "175" or len([x for x in t if x.strip()]) > 1:
            r["result"] = "tests"
            return r
        rcs = []
        for c in (next(v for k, v in CHECKS if path.startswith(k)).split() + (["C37", "C38", "C40", "C42"] if path.startswith("d7a") else [])):
            p = sh("SUT_REPO=%s VERIF_SHARDS=3 timeout 600 bash %s/run.sh %s" % (w, VERIF, c))
            rcs.append("%s:%d" % (c, p.returncode))
            if p.returncode:
                r["result"] = "caught" if p.returncode == 1 else "error"
                r["out"] = (p.stdout + p.stderr)[:400]
                break
        else:
            r["result"] = "SURVIVED"
        r["checks"] = rcs
        return r
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = [f for f in sh("git -C %s ls-files '*.py'" % REPO).stdout.split() if "test" not in f and "examples" not in f and "__init__" not in f
             and (len(sys.argv) < 5 or any(x in f for x in sys.argv[4:])) and f.startswith(("d7a", "modem", "tools"))]
    per = {f: sites(f, open(REPO + "/" + f).read()) for f in files}
    rnd = random.Random(seed)
    jobs = []
    total = sum(len(v) for v in per.values())
    print("%d possible changes" % total, flush=True)
    for f in files:
        k = max(2, round(n * len(per[f]) / total))
        jobs += rnd.sample(per[f], min(k, len(per[f])))
    rnd.shuffle(jobs)
    with ThreadPoolExecutor(3) as ex, open(out, "a") as fh:
        tally = {}
        for r in ex.map(one, enumerate(jobs)):
            tally[r["result"]] = tally.get(r["result"], 0) + 1
            fh.write(json.dumps(r) + "\n")
            fh.flush()
            print(tally, r["result"], r["path"], r["line"], r["new"].strip(), r.get("checks"), flush=True)


if __name__ == "__main__":
    main()
