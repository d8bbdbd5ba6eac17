#!/usr/bin/env python3
"""mutate.py LANE SEED N FILE-REGEX [OUT]: operator mutants of a scratch copy of /repo against a scratch copy of the
checks (both under /tmp/lane<LANE>, made on first use, removed by hand). Nothing registered in MANIFEST.json uses it.

Every line of OUT: verdict, property that caught it, file:line, the old line, the new line. 'survived' ones want a look:
equivalent, outside every property, or a hole."""
import json, os, random, re, subprocess, sys, time

lane, seed, n, rx = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), re.compile(sys.argv[4])
out = sys.argv[5] if len(sys.argv) > 5 else "/tmp/camp/lane%s.tsv" % lane
L = "/tmp/lane" + lane
R, V = L + "/repo", L + "/verif"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


if not os.path.exists(L):
    os.makedirs(V)
    sh("git -C /repo archive --prefix=repo/ HEAD | tar x -C " + L)
    sh("cp -a /repo/packages/lib/node_modules %s/packages/lib/ 2>/dev/null; cp -a /repo/node_modules %s/ 2>/dev/null" % (R, R))
    sh("git -C /verif archive HEAD | tar x -C " + V)
    sh("cd %s && rm -r seeded; grep -rlE '/repo\\b' check rust ts | xargs sed -i -E 's#(^|[^a-z])/repo\\b#\\1%s#g'" % (V, R))

MAP = [
    (r"field_sec[pq]", "C14 C15 C18 C16"), (r"secq256k1/src/scalar", "C15 C14"), (r"secq256k1/src/(affine|hash|lib)", "C16 C17 C18 C13 C15"),
    (r"Spartan-secq/src/scalar", "C01 C02"), (r"Spartan-secq/src/(math|bin)", "C30"), (r"commitments", "C13 C07 C08 C11"), (r"src/group", "C16 C17 C07 C08"),
    (r"sparse_mlpoly|product_tree", "C09 C10 C11 C12"), (r"r1csinstance", "C06 C07 C09 C10 C11"), (r"Spartan-secq/src/lib", "C06 C07 C08 C09 C10 C11 C12"),
    (r"Spartan-secq/src/(random|transcript)", "C11 C12 C07"), (r"Spartan-secq/src/", "C07 C08 C11 C12 C09 C10"),
    (r"circom_reader", "C03 C04 C05"), (r"circuit_reader", "C05"), (r"poseidon/src", "C19"), (r"spartan_wasm", "C21"),
    (r"circuits/poseidon", "C20 C28"), (r"circuits/.*secp256k1", "C26 C27"), (r"circuits/.*eff", "C27 C28"), (r"circuits/", "C26 C27 C28 C29"),
    (r"lib/src/helpers/pub", "C22 C23 C25"), (r"lib/src/helpers/(tree|pos)", "C24 C25"), (r"lib/src/helpers", "C23 C22 C25 C24"), (r"lib/src/core", "C25"), (r"lib/src", "C25 C24 C22 C23"),
]


def checks(f):
    for r, c in MAP:
        if re.search(r, f):
            return c.split()
    return []


files = []
for d, ds, fs in os.walk(R + "/packages"):
    ds[:] = [x for x in ds if x not in ("node_modules", "tests", "target", "benchmark", "build", "examples", "benches", "profiler", "wasm_bytes")]
    for f in fs:
        p = os.path.join(d, f)
        if re.search(r"\.(rs|circom|ts)$", f) and rx.search(p) and not re.search(r"\.test\.|\.d\.ts$|wasm_bytes", f):
            files.append(p)
files.sort()

SUB = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "),
       (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+= ", " -= "), (r" -= ", " += "),
       (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " ^ "), (r" \^ ", " | "), (r"\bmax\b", "min"),
       (r"===", "!=="), (r"\bsquare\(\)", "double()"), (r"<==", "<--"), (r"\.rev\(\)", "")]


def mutants(p):
    src = open(p).read().split("\n")
    res = []
    ext = p.rsplit(".", 1)[1]
    intest = False
    for i, l in enumerate(src):
        if "#[cfg(test)]" in l:
            break
        s = l.strip()
        if s.startswith(("//", "*", "/*", "use ", "import ", "pragma", "include", "#[", "#!")) or not s:
            continue
        code = l.split("//")[0]
        for a, b in SUB:
            if ext == "circom" and a in ("==="):
                continue
            for m in re.finditer(a, code):
                res.append((i, l[:m.start()] + b + l[m.end():]))
        for m in re.finditer(r"(?<![\w.\"'])(\d{1,4})(?![\w.\"'])", code):
            v = int(m.group(1))
            for w in ({v + 1, v - 1} - {-1}):
                res.append((i, l[:m.start()] + str(w) + l[m.end():]))
        for m in re.finditer(r"\[(\w+)\]", code):
            if not m.group(1)[0].isdigit() and ext != "rs":
                res.append((i, l[:m.start()] + "[%s + 1]" % m.group(1) + l[m.end():]))
        if re.match(r"^\s*[\w.\[\]:!&*]+(\(|\s[-+]?=\s|\s===\s|\s<==\s).*;\s*$", code) and not re.match(r"\s*(let|return|const|var|signal|component|for|if)\b", code):
            for _ in range(2):
                res.append((i, re.match(r"\s*", l).group(0) + ("" if ext == "circom" else ";") + "/* gone */"))
        if ext == "circom" and "===" in code:
            res.append((i, "/* gone */"))
    return src, res


def removals(p):
    """whole statements of functions that verify or check something, and the outcomes of their conditions"""
    text = open(p).read()
    end = text.find("#[cfg(test)]")
    text_ = text if end < 0 else text[:end]
    res = []
    for m in re.finditer(r"\n(\s*)(?:pub )?fn (verify\w*|is_sat|new|unpack|decompress|deserialize|load\w*|read\w*|visit_seq|commit|prove\w*)\b", text_):
        a = text_.index("{", m.end())
        ind = m.group(1).split("\n")[-1]
        b = text_.find("\n" + ind + "}", a)
        body = text_[a:b]
        if not re.search(r"verify|check|is_sat|new|unpack|decompress", m.group(2)) and not PROVE:
            continue
        # statements: split at ';' followed by newline, bracket-balanced
        stack, start = ["{"], a + 1
        for k in range(a + 1, b):
            c = text_[k]
            if c in "([{":
                stack.append(c)
                if c == "{":
                    start = k + 1
            elif c in ")]}":
                if len(stack) > 1:
                    stack.pop()
                if c == "}":
                    start = k + 1
            elif c == ";" and stack[-1] == "{":
                st = text_[start:k + 1]
                if re.match(r"\s*(//[^\n]*\s*)*(assert|debug_assert|\w[\w.\[\]]*\s*\n?\s*[.(])", st) and not re.match(r"\s*(let|return|use)\b", st.lstrip()):
                    res.append((start, k + 1, "\n;"))
                start = k + 1
        for x in re.finditer(r"\bif ([^{]*?) \{", body):
            for v in ("true", "false"):
                res.append((a + x.start(1), a + x.end(1), v))
        for x in re.finditer(r"(==|&&|!=)", body):
            pass
    return text, res


PROVE = False
if os.environ.get("REMOVALS"):
    pool2 = []
    for f in files:
        text, r = removals(f)
        pool2 += [(f, x) for x in r]
    random.seed(seed)
    random.shuffle(pool2)
    print(len(files), "files", len(pool2), "removals", flush=True)
random.seed(seed)
pool = []
for f in files:
    src, r = mutants(f)
    pool += [(f, i, new) for i, new in r if new != src[i]]
random.shuffle(pool)
print(len(files), "files", len(pool), "mutants")
done = 0
for item in (pool2 if os.environ.get("REMOVALS") else pool):
    if done >= n:
        break
    f = item[0]
    orig = open(f).read()
    if len(item) == 2:
        a, b, new = item[1]
        i, old = orig.count("\n", 0, a + 1), " ".join(orig[a:b].split())[:160]
        open(f, "w").write(orig[:a] + new + orig[b:])
    else:
        _, i, new = item
        src = orig.split("\n")
        old = src[i]
        src[i] = new
        open(f, "w").write("\n".join(src))
    verdict, by, info, t0 = "survived", "", "", time.time()
    try:
        for c in checks(f):
            try:
                p = sh("cd %s && timeout 700 ./check %s" % (V, c))
            except Exception as e:
                verdict = "error"; break
            if "BUILD-ERROR" in p.stdout:
                verdict = "nobuild"; break
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                verdict, by = "caught", c
                k = [x for x in p.stdout.split("\n") if x.startswith("  [")]
                info = k[0][:120] if k else ""
                break
            if p.returncode not in (0, 1):
                info += "%s=rc%d " % (c, p.returncode)
    finally:
        open(f, "w").write(orig)
    if verdict != "nobuild":
        done += 1
        with open(out, "a") as o:
            o.write("\t".join([verdict, by, "%ds" % (time.time() - t0), f[len(R) + 10:] + ":%d" % (i + 1), old.strip(), new.strip(), info]) + "\n")
