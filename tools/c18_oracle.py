"""Development-time tool: judge every program of lib/c18.py with gcc and clang (-pedantic-errors) and write lib/c18_oracle.json.

V: both accept, B: both reject, ?: they disagree or the program is masked (see c18.MASK). The checks read only the committed file.
"""
import json, os, re, subprocess, sys
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/../lib")
import c18


def one(a):
    n, k = a
    g = c18.G[n]
    t = c18.program(n, k)[0]
    if n in c18.MASK and re.search(c18.MASK[n], t):
        return "?"
    std = "-std=" + g["std"]
    p = subprocess.run(["gcc", std, "-pedantic-errors", "-fsyntax-only", "-xc", "-"], input=g["head"] + t, capture_output=True, text=True).returncode
    q = subprocess.run(["clang", std, "-pedantic-errors", "-Wno-strict-prototypes", "-Wno-deprecated-non-prototype", "-fsyntax-only", "-xc", "-"], input=g["head"] + t, capture_output=True, text=True).returncode
    return "?" if bool(p) != bool(q) else "B" if p else "V"


if __name__ == "__main__":
    f = os.path.dirname(os.path.abspath(__file__)) + "/../lib/c18_oracle.json"
    out = json.load(open(f)) if os.path.exists(f) else {}
    for n in sys.argv[1:] or list(c18.G):
        with ProcessPoolExecutor() as ex:
            out[n] = "".join(ex.map(one, [(n, k) for k in range(c18.size(n))], chunksize=32))
        print(n, len(out[n]), out[n].count("V"), out[n].count("B"), flush=True)
    json.dump(out, open(f, "w"), indent=0, sort_keys=True)
