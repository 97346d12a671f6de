"""C18: compiles literals with rustc; the accepted ones must be those of the Recognizer graph."""
import concurrent.futures as cf
import json, os, shutil


def lit(t, k):
    """A Rust string literal for text t, in one of several spellings."""
    plain = all(32 <= ord(c) < 127 and c not in '"\\' for c in t)
    if plain and k % 5 == 1:
        return f'r"{t}"'
    if plain and k % 5 == 2:
        return f'r#"{t}"#'
    if k % 5 == 3 and t:
        return '"' + f"\\u{{{ord(t[0]):x}}}" + body(t[1:]) + '"'
    return '"' + body(t) + '"'


def body(t):
    return "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else f"\\u{{{ord(c):x}}}" for c in t)


HEAD = "#![allow(long_running_const_eval, dead_code, unused)]\nuse langtag::{langtag, LangTag};\n"


def good_source(ws):
    s = HEAD
    for i, w in enumerate(ws):
        s += {0: f"const C{i}: &LangTag = langtag!({lit(w, i)});\n",
              1: f"static C{i}: &LangTag = langtag!({lit(w, i)});\n",
              2: f"const C{i}: &'static LangTag = {{ const X: &LangTag = langtag::langtag!({lit(w, i)}); X }};\n",
              3: f"const C{i}: &LangTag = f{i}(); const fn f{i}() -> &'static LangTag {{ langtag!({lit(w, i)}) }}\n"}[i % 7 if i % 7 < 4 else 0]
    s += "fn main() {\n\tlet all: &[(&str, &LangTag)] = &["
    s += ", ".join(f'("{body(w)}", C{i})' for i, w in enumerate(ws))
    s += "];\n\tfor (i, (t, c)) in all.iter().enumerate() {\n"
    s += """\t\tlet ok = match LangTag::new(*t) {
			Ok(r) => r == *c && r.as_str() == c.as_str() && c.as_str() == *t && c.as_bytes() == t.as_bytes()
				&& r.kind() == c.kind() && r.cmp(c) == std::cmp::Ordering::Equal,
			Err(_) => false,
		};
		if !ok { println!("DIFFERENT {i}"); }
	}
"""
    for i, w in enumerate(ws):
        if i % 9 == 0:
            s += f"\t{{ let v: &LangTag = langtag!({lit(w, i)}); if v.as_str() != \"{body(w)}\" {{ println!(\"DIFFERENT {i}\"); }} }}\n"
    s += '\tprintln!("DONE");\n}\n'
    return s


def bad_source(ws):
    return HEAD + "".join(
        [f"const C{i}: &LangTag = langtag!({lit(w, i)});\n" if i % 3 else f"static C{i}: &LangTag = langtag!({lit(w, i)});\n" for i, w in enumerate(ws)]
    ) + "fn main() {}\n"


def run_bad_source(ws):
    s = HEAD + "fn main() {\n\tstd::panic::set_hook(Box::new(|_| ()));\n"
    for i, w in enumerate(ws):
        s += f"\tif std::panic::catch_unwind(|| {{ let v: &LangTag = langtag!({lit(w, i)}); v.as_bytes().len() }}).is_ok() {{ println!(\"ACCEPTED {i}\"); }}\n"
    return s + '\tprintln!("DONE");\n}\n'


def rustc(src, rlib, work, name, sh, meta):
    f = os.path.join(work, name + ".rs")
    with open(f, "w") as o:
        o.write(src)
    out = os.path.join(work, name)
    cmd = ["rustc", "--edition", "2024", "--crate-name", name, "--error-format", "json", "-C", "debug-assertions=on", "-C", "debuginfo=0",
           "--extern", "langtag=" + rlib, "-L", "dependency=" + os.path.dirname(rlib), "-L", "dependency=" + os.path.join(os.path.dirname(rlib), "deps"), f]
    cmd += ["--emit", "metadata", "-o", out + ".rmeta"] if meta else ["-o", out]
    rc, o, err = sh(cmd, 800)
    lines, other = set(), []
    for l in err.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            other.append(l)
            continue
        if d.get("level") != "error":
            continue
        at = [s["line_start"] for s in all_spans(d) if s["file_name"] == f]
        code = (d.get("code") or {}).get("code")
        if at:
            lines.add((at[0], code, d["message"]))
        elif "aborting" not in d["message"]:
            other.append(d["message"])
    return rc, lines, other


def all_spans(d):
    for s in d.get("spans", []):
        while s is not None:
            yield s
            s = (s.get("expansion") or {}).get("span")
    for c in d.get("children", []):
        yield from all_spans(c)


def chunks(ws, n):
    k = max(1, (len(ws) + n - 1) // n)
    return [ws[i:i + k] for i in range(0, len(ws), k)]


def check(binary, rlib, env, work, deep, sh, Violation, ToolError):
    f = os.path.join(work, "literals")
    rc, _, err = sh([binary, "literals", f], 300, env)
    if rc != 0:
        raise ToolError(f"literals: {rc} {err[-500:]}")
    good, bad = [], []
    for l in open(f).read().splitlines():
        (good if l[0] == "1" else bad).append(bytes.fromhex(l[2:]).decode())
    head = HEAD.count("\n")

    def case(t, msg):
        return Violation({"kind": "literal", "literal": t, "well_formed": t in goods, "msg": f"langtag!({lit(t, 0)}): {msg}"})

    goods = set(good)

    def do_good(a):
        k, ws = a
        name = f"good{k}"
        rc, lines, other = rustc(good_source(ws), rlib, work, name, sh, False)
        if rc != 0:
            hit = sorted(l for l, _, _ in lines if head < l <= head + len(ws))
            if not hit:
                raise ToolError(f"rustc {name}: {rc} {list(lines)[:3]} {other[:3]}")
            msg = next(m for l, _, m in lines if l == hit[0])
            raise case(ws[hit[0] - head - 1], f"a well-formed tag is rejected at compile time: {msg}")
        rc, o, e = sh([os.path.join(work, name)], 120)
        for l in o.splitlines():
            if l.startswith("DIFFERENT"):
                raise case(ws[int(l.split()[1])], "the constant is not the tag that parsing the literal at run time gives")
        if "DONE" not in o:
            raise case(ws[0], f"comparing constants with parsed tags ends abnormally ({rc}): {e[-300:]}")

    def do_bad(a):
        k, ws = a
        name = f"bad{k}"
        rc, lines, other = rustc(bad_source(ws), rlib, work, name, sh, True)
        if rc == 0:
            raise case(ws[0], "an ill-formed literal is accepted in const context")
        if other or any(c not in ("E0080",) for _, c, _ in lines):
            raise ToolError(f"rustc {name}: {[x for x in lines if x[1] != 'E0080'][:3]} {other[:3]}")
        hit = {l for l, _, _ in lines}
        for i, w in enumerate(ws):
            if head + 1 + i not in hit:
                raise case(w, "an ill-formed literal is accepted in const context")

    def do_run(a):
        k, ws = a
        name = f"runbad{k}"
        rc, lines, other = rustc(run_bad_source(ws), rlib, work, name, sh, False)
        if rc != 0:
            return  # rejected at compile time is fine too
        rc, o, e = sh([os.path.join(work, name)], 120)
        for l in o.splitlines():
            if l.startswith("ACCEPTED"):
                raise case(ws[int(l.split()[1])], "an ill-formed literal gives a value at run time")
        if "DONE" not in o:
            raise ToolError(f"{name}: {rc} {e[-300:]}")

    n = 8
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(do_bad, a) for a in enumerate(chunks(bad, n))]
        fs += [ex.submit(do_good, a) for a in enumerate(chunks(good, n))]
        fs += [ex.submit(do_run, a) for a in enumerate(chunks(bad[::10], 2))]
        first = None
        for x in fs:
            e = x.exception()
            if isinstance(e, Violation):
                first = first or e
            elif e is not None:
                first = first or e
        for x in fs:
            if isinstance(x.exception(), Violation):
                raise x.exception()
        if first:
            raise first
    for x in os.listdir(work):
        if x.startswith(("good", "bad", "runbad")):
            os.remove(os.path.join(work, x))
    return {"violations": [], "counts": [["literals_accepted_at_compile_time", len(good)], ["literals_rejected_at_compile_time", len(bad)],
                                         ["literals_rejected_at_run_time", len(bad[::10])]],
            "known_count": 0, "known": [], "notes": [],
            "samples": [{"literal": w, "compiles": True} for w in good[::max(1, len(good) // 10)]]
            + [{"literal": w, "compiles": False} for w in bad[::max(1, len(bad) // 10)]]}


def replay(case, rlib, work, sh=None):
    from subprocess import run, PIPE

    def sh(cmd, t):
        p = run(cmd, stdout=PIPE, stderr=PIPE, timeout=t)
        return p.returncode, p.stdout.decode(), p.stderr.decode()

    rc, lines, other = rustc(good_source([case["literal"]]), rlib, work, "one", sh, False)
    return 1, f"rustc ends with {rc} on the literal (well-formed: {case['well_formed']}): {[m for _, _, m in lines]}", ""
