"""The integer and float literals of the repository's sources: values which its code treats specially,
and so worth drawing more often than chance would (a fuzzing dictionary; it decides nothing)."""
import os, re, struct

LIT = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)(?:_?(?:[iu](?:8|16|32|64|128|size)|f32|f64))?")
CHAR = re.compile(r"b?'(?:\\.|[^\\'])'")
STRING = re.compile(r'b?"(?:\\.|[^"\\])*"', re.S)


def strip(text):
    text = re.sub(r"//[^\n]*", "", text)
    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    # unit tests sit at the end of their files
    return re.sub(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{.*\Z", "", text, flags=re.S)


def literals(repo="/repo"):
    out = set()
    for base, dirs, files in os.walk(os.path.join(repo, "crates")):
        dirs[:] = sorted(d for d in dirs if d not in ("target", "benches", "tests", "examples"))
        for f in sorted(files):
            if not f.endswith(".rs") or f == "tests.rs":
                continue
            try:
                text = strip(open(os.path.join(base, f), errors="replace").read())
            except OSError:
                continue
            text = STRING.sub(" ", CHAR.sub(" ", text))
            for m in LIT.finditer(text):
                t = m.group(1).replace("_", "")
                try:
                    if t[:2] in ("0x", "0b", "0o"):
                        v = int(t, 0)
                    elif "." in t or ("e" in t.lower() and not t.startswith("0x")):
                        d = float(t)
                        out.add(struct.unpack("<Q", struct.pack("<d", d))[0])
                        try:
                            out.add(struct.unpack("<I", struct.pack("<f", d))[0])
                        except OverflowError:
                            pass
                        continue
                    else:
                        v = int(t, 10)
                except ValueError:
                    continue
                while True:
                    out.add(v & (1 << 64) - 1)
                    v >>= 64
                    if not v:
                        break
    return sorted(out)


def write(path, repo=None):
    vals = literals(repo or os.environ.get("VERIF_REPO") or "/repo")
    with open(path, "w") as f:
        f.write("\n".join(map(str, vals)) + "\n")
    return len(vals)


if __name__ == "__main__":
    v = literals()
    print(len(v), v)
