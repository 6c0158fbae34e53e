#!/usr/bin/env python3
"""examples.py: the repository's example models as tables, read by a parser of their own, into sim/examples.inc.
Run by hand when an example is added; the file is committed, so checks do not depend on it."""
import re, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = os.environ.get("VERIF_REPO", "/repo") + "/examples/pomdp-files/"
NAMES = "1d 4x3.95 bridge-repair cheese.95 concert ejs1 ejs2 ejs3 parr95.95 shuttle.95 tiger.95 tiger.aaai manuel-hartman.2013-09-19".split()


def parse(text):
    toks = []
    for l in text.split("\n"):
        toks += re.findall(r":|[^\s:]+", re.sub("#.*", "", l))
    i = 0
    KEY = {"discount", "values", "states", "actions", "observations", "start", "T", "O", "R"}
    m = dict(disc=1.0, cost=False, start=None)
    dims = {}

    def isnum(t):
        return re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", t) is not None

    def section_end(j):
        return j >= len(toks) or (toks[j] in KEY and (toks[j + 1] == ":" or toks[j + 1] in ("include", "exclude")))

    def idx(what, t):
        n, names = dims[what]
        if t == "*":
            return list(range(n))
        return [names.index(t)] if names and t in names else [int(t)]

    T = O = R = None
    while i < len(toks):
        k = toks[i]
        assert toks[i + 1] == ":" or k == "start", toks[i:i + 4]
        if k == "start" and toks[i + 1] != ":":
            kind, i, l = toks[i + 1], i + 3, []
            while not section_end(i):
                l += idx("states", toks[i]); i += 1
            S = dims["states"][0]
            l = [x for x in range(S) if (x in l) == (kind == "include")]
            m["start"] = [(x in l) / len(l) for x in range(S)]
            continue
        i += 2
        if k == "discount":
            m["disc"] = float(toks[i]); i += 1
        elif k == "values":
            m["cost"] = toks[i] == "cost"; i += 1
        elif k in ("states", "actions", "observations"):
            l = []
            while not section_end(i):
                l.append(toks[i]); i += 1
            dims[k] = (int(l[0]), None) if len(l) == 1 and l[0].isdigit() else (len(l), l)
        elif k == "start":
            l = []
            while not section_end(i):
                l.append(toks[i]); i += 1
            S = dims["states"][0]
            m["start"] = [1.0 / S] * S if l == ["uniform"] else [float(x) for x in l] if len(l) == S else [float(x in idx("states", l[0])) for x in range(S)]
        else:
            S, A, Z = dims["states"][0], dims["actions"][0], dims["observations"][0]
            if T is None:
                T = [[[0.0] * S for _ in range(S)] for _ in range(A)]
                O = [[[0.0] * Z for _ in range(S)] for _ in range(A)]
                R = [[[[0.0] * Z for _ in range(S)] for _ in range(S)] for _ in range(A)]
            kinds = {"T": ["actions", "states", "states"], "O": ["actions", "states", "observations"], "R": ["actions", "states", "states", "observations"]}[k]
            sel = [idx(kinds[0], toks[i])]; i += 1
            while i < len(toks) and toks[i] == ":":
                sel.append(idx(kinds[len(sel)], toks[i + 1])); i += 2
            vals = []
            while not section_end(i):
                vals.append(toks[i]); i += 1
            rest = [dims[x][0] for x in kinds[len(sel):]]
            n = 1
            for x in rest:
                n *= x
            if vals == ["uniform"]:
                vals = [1.0 / rest[-1]] * n
            elif vals == ["identity"]:
                vals = [float(p == q) for p in range(rest[0]) for q in range(rest[1])]
            elif vals == ["reset"]:
                vals = list(m["start"]) * (n // len(m["start"]))
            vals = [float(x) for x in vals]
            assert len(vals) == n, (k, sel, len(vals), n)

            def put(tab, path):
                ends = rest
                import itertools
                for pre in itertools.product(*path):
                    for c, post in enumerate(itertools.product(*[range(x) for x in ends])):
                        p = list(pre) + list(post); t = tab
                        for q in p[:-1]:
                            t = t[q]
                        t[p[-1]] = vals[c]
            put({"T": T, "O": O, "R": R}[k], sel)
    S = dims["states"][0]
    m.update(S=S, A=dims["actions"][0], O=dims["observations"][0], T=T, Z=O, R=R)
    if m["start"] is None:
        m["start"] = [1.0 / S] * S
    return m


out = ["// made by meta/examples.py from the repository's example models", "struct Example { const char *name, *text; int S, A, O; double disc; int cost; std::vector<double> start, T, Z, R; };",
       "static const std::vector<Example> &examples() {", "  static const std::vector<Example> X = {"]
for n in NAMES:
    text = open(DIR + n + ".POMDP", encoding="latin-1").read()
    m = parse(text)
    for a in range(m["A"]):
        for s in range(m["S"]):
            assert abs(sum(m["T"][a][s]) - 1) < 1e-5, (n, "T", a, s, sum(m["T"][a][s]))
            assert abs(sum(m["Z"][a][s]) - 1) < 1e-5, (n, "O", a, s)

    def flat(t):  # sparse: position, value pairs
        l = []

        def go(x):
            if isinstance(x, list):
                for y in x:
                    go(y)
            else:
                l.append(x)
        go(t)
        return "{" + ",".join("%d,%r" % (i, v) for i, v in enumerate(l) if v) + "}"
    esc = "\n".join('"%s\\n"' % l.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t") for l in re.sub("#.*", "", text.replace("\r", "")).split("\n") if l.strip())
    out.append('  {"%s",\n%s, %d, %d, %d, %r, %d, {%s}, %s, %s, %s},' % (n, esc, m["S"], m["A"], m["O"], m["disc"], m["cost"], ",".join(map(repr, m["start"])), flat(m["T"]), flat(m["Z"]), flat(m["R"])))
    print(n, m["S"], m["A"], m["O"], m["disc"], m["cost"])
out += ["  };", "  return X;", "}", ""]
open(os.path.join(HERE, "sim/examples.inc"), "w").write("\n".join(out))
