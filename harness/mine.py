"""A dictionary for the generators, as fuzzers take it from the program they test: the integers in its source.
Those that are not in the list recorded for the tree the checks were written for (constants.json) get more weight."""
import collections, glob, json, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
INT = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F]+|0[bB][01]+|\d+)(?![\w.])|\\x([0-9a-fA-F]{2})")


def mine(repo):
    out = collections.Counter()
    for path in sorted(glob.glob(repo + "/**/*.py", recursive=True)):
        rel = os.path.relpath(path, repo)
        if "test" in rel.split(os.sep) or rel.startswith("examples"):
            continue
        try:
            with open(path, encoding="latin-1") as fh:
                text = fh.read()
        except OSError:
            continue
        for line in text.split("\n"):
            if line.lstrip().startswith("#"):
                continue
            for m in INT.finditer(line):
                try:
                    v = int(m.group(1), 0) if m.group(1) else int(m.group(2), 16)
                except ValueError:
                    continue
                out[rel + ":" + str(v)] += 1
    return out


def novel(repo=None):
    """integers which the source has more often than recorded, and what is next to them"""
    try:
        with open(os.path.join(HERE, "constants.json")) as fh:
            known = json.load(fh)
        now = mine(repo or os.environ.get("SUT_REPO", "/repo"))
    except Exception:
        return []
    vals = {int(k.rsplit(":", 1)[1]) for k, n in now.items() if n > known.get(k, 0)}
    out = set()
    for v in sorted(vals)[:12]:
        out.update((v - 1, v, v + 1))
        if v < 64:
            out.update((2 ** v - 1, 2 ** v))
    return sorted(out)


if __name__ == "__main__":
    with open(os.path.join(HERE, "constants.json"), "w") as fh:
        json.dump(dict(sorted(mine(sys.argv[1]).items())), fh, indent=0)
