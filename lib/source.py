"""Literals of the sources: special cases in the code tend to name their input."""
import glob, os, re

STR = re.compile(rb'b?r?#*"((?:[^"\\\n]|\\.)*)"')
CHR = re.compile(rb"b?'([A-Za-z0-9])'")
NUM = re.compile(rb"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:u8|u16|u32|u64|usize|i32|i64)?(?![\w.])")
TAGISH = re.compile(rb"[A-Za-z0-9-]{1,40}$")


def harvest(repo):
    """(words, numbers) found in the hand-written sources and their comments' code."""
    words, nums = set(), set()
    for f in sorted(glob.glob(os.path.join(repo, "src", "**", "*.rs"), recursive=True)):
        if os.path.basename(f) == "grammar.rs":
            continue  # generated: its literals are the transitions of the automata
        b = open(f, "rb").read()
        for m in STR.finditer(b):
            w = m.group(1)
            if TAGISH.match(w):
                words.add(w)
                # subtags of one letter upwards are words too
                for s in w.split(b"-"):
                    if s:
                        words.add(s)
        for m in CHR.finditer(b):
            words.add(m.group(1))
        code = re.sub(rb"//[^\n]*", b"", b)
        for m in NUM.finditer(code):
            try:
                n = int(m.group(1).replace(b"_", b""), 0)
            except ValueError:
                continue
            if 4 < n < 100_000:
                nums.add(n)
    return sorted(words), sorted(nums)


if __name__ == "__main__":
    w, n = harvest("/repo")
    print(len(w), w, n)
