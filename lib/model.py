"""Explores the specification with TLC and turns the dumped graphs into model.json."""
import json, os, re, subprocess, time, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
DUMPS = ["Recognizer", "ParseTree", "Iteration", "Compare", "Conversion", "Collections", "Registry", "Compose"]
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class SpecError(ToolError):
    """TLC found the specification itself violating a property."""


def tlc(module, cfg, work, *args, env=None, workers=1, heap="2g", timeout=600, ok_codes=(0,)):
    """Runs TLC; returns (stdout, stats)."""
    meta = os.path.join(work, "tlc-" + cfg)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, workers)}", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg + ".cfg", *args, module + ".tla"]
    e = dict(os.environ)
    e.pop("DUMP", None)
    e.update(env or {})
    out = os.path.join(work, cfg + ".out")
    t0 = time.time()
    with open(out, "wb") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC {cfg}: no answer after {timeout} s")
    text = open(out, errors="replace").read()
    shutil.rmtree(meta, ignore_errors=True)
    if p.returncode not in ok_codes:
        tail = "\n".join(l for l in text.splitlines() if not l.startswith('"'))[-2500:]
        raise SpecError(f"TLC {cfg} ended with {p.returncode}:\n{tail}")
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", text)
    stats = {"config": cfg, "wall_s": round(time.time() - t0, 2)}
    if m:
        stats["transitions"] = int(m[-1][0].replace(",", ""))
        stats["states"] = int(m[-1][1].replace(",", ""))
    return text, stats


def records(text):
    for l in text.splitlines():
        if l.startswith('"['):
            yield json.loads(json.loads(l))


def build(outs):
    rec = {k: list(records(v)) for k, v in outs.items()}
    syms, sym, fold = {}, [0] * 256, [0] * 256
    for r in rec["Recognizer"]:
        if r[0] == "SYM":
            sym[r[1]] = syms.setdefault(r[2], len(syms))
            fold[r[1]] = r[3]
    n = len(syms)
    dfa = {}
    for r in rec["Recognizer"]:
        if r[0] == "DFA-I":
            d = dfa.setdefault(r[1], {"ids": {}, "acc": [], "edges": {}})
            assert not d["ids"]
            d["ids"][r[2]] = 0
            d["acc"].append(r[3])
    for r in rec["Recognizer"]:
        if r[0] == "DFA-E":
            _, ty, a, s, b, acc = r
            d = dfa[ty]
            for x in (a, b):
                if x not in d["ids"]:
                    d["ids"][x] = len(d["ids"])
                    d["acc"].append(None)
            i = d["ids"][b]
            assert d["acc"][i] in (None, acc), "fingerprint collision"
            d["acc"][i] = acc
            k = (d["ids"][a], syms[s])
            assert d["edges"].setdefault(k, i) == i, "fingerprint collision"
    out = {}
    for ty, d in dfa.items():
        m = len(d["acc"])
        nxt = [[d["edges"][(s, c)] for c in range(n)] for s in range(m)]
        acc, init = d["acc"], 0
        # every type needs a state from which nothing is accepted
        alive = list(acc)
        ch = True
        while ch:
            ch = False
            for s in range(m):
                if not alive[s] and any(alive[t] for t in nxt[s]):
                    alive[s] = ch = True
        assert not all(alive), ty
        out[ty] = {"init": init, "acc": acc, "next": nxt}
    nfa, rules, paths = {}, {}, {}
    for r in rec["ParseTree"]:
        if r[0] == "NFA-I":
            nfa[r[1]] = {"ids": {r[2]: 0}, "final": [r[3]], "edges": set()}
    for r in rec["ParseTree"]:
        if r[0] == "NFA-E":
            _, ty, a, s, b, fin, path = r
            d = nfa[ty]
            for x in (a, b):
                if x not in d["ids"]:
                    d["ids"][x] = len(d["ids"])
                    d["final"].append(None)
            i = d["ids"][b]
            assert d["final"][i] in (None, fin), "fingerprint collision"
            d["final"][i] = fin
            p = tuple(rules.setdefault(x, len(rules)) for x in path)
            d["edges"].add((d["ids"][a], syms[s], i, paths.setdefault(p, len(paths))))
    assert len(rules) < 64
    nout = {ty: None for ty in out}
    for ty, d in nfa.items():
        assert None not in d["final"]
        nout[ty] = {"init": 0, "final": d["final"], "edges": sorted(map(list, d["edges"]))}
    gf = [[r[2], r[3][0] if r[3] else None, r[4]] for r in rec["Registry"] if r[0] == "GF"]
    single = [False] * 256
    for r in rec["Registry"]:
        if r[0] == "SG":
            single[r[1]] = r[2]
    conv = sorted({tuple(r[1:]) for r in rec["Conversion"] if r[0] == "CV-E"})
    return {
        "sym": sym, "fold": fold, "nsym": n, "dfa": out, "nfa": nout,
        "paths": [list(p) for p in paths], "rules": list(rules),
        "it": [r[1:] for r in rec["Iteration"] if r[0] == "IT-E"],
        "itn": [list(x) for x in sorted({tuple(r[1:]) for r in rec["Iteration"] if r[0] == "IT-N"})],
        "itr": sorted({json.dumps(r[1:]): r[1:] for r in rec["Iteration"] if r[0] == "IT-R"}.values()),
        "cmp": [r[1:] for r in rec["Compare"] if r[0] == "CMP"],
        "conv": [list(c) for c in conv],
        "coll": [r[1:] for r in rec["Collections"] if r[0] == "CO-E"],
        "cpf": [r[1:] for r in rec["Compose"] if r[0] == "CP-F"],
        "cpe": sorted({tuple(r[1:]) for r in rec["Compose"] if r[0] == "CP-E"}),
        "gf": gf, "single": single,
    }


def make(work):
    """Explores every dumped module; writes work/model.json.  Returns per-module statistics."""
    os.makedirs(work, exist_ok=True)
    with cf.ThreadPoolExecutor(len(DUMPS)) as ex:
        fs = {c: ex.submit(tlc, c, c, work, env={"DUMP": "1"}) for c in DUMPS}
        res = {c: f.result() for c, f in fs.items()}
    model = build({c: r[0] for c, r in res.items()})
    tmp = os.path.join(work, "model.json")
    with open(tmp, "w") as f:
        json.dump(model, f)
    return tmp, {c: r[1] for c, r in res.items()}


if __name__ == "__main__":
    import sys
    t = time.time()
    print(make(sys.argv[1] if len(sys.argv) > 1 else os.path.join(VERIF, "build", "model")), time.time() - t)
