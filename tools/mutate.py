#!/usr/bin/env python3
"""Mutation campaign: mutate.py <crate> <lane> <lanes> <minutes> [seed]
Each mutant of <crate>'s sources is built and run (in a scratch copy mounted over /repo in a namespace of its own) through the
crate's checks with few cases. What no check notices is listed in /tmp/w/camp/<crate>.<lane>.jsonl with "killed": null."""
import json, os, random, re, subprocess, sys, time
crate, lane, lanes, minutes = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4])
seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
IDS = {"parser": ["C%02d" % i for i in (1, 3, 13, 2, 4, 8, 9, 10, 6, 7, 11, 12, 15, 5, 14, 16, 18, 19)], "crond": ["C21", "C20", "C22", "C23"],
       "uri": ["C31", "C32", "C33", "C34", "C35", "C36", "C30"], "hocon": ["C40", "C41", "C42", "C43", "C44", "C45", "C46", "C47", "C48"],
       "toys": ["C51", "C50", "C52", "C53"]}[crate]
CASES = {"parser": 4000, "crond": 2500, "uri": 3000, "hocon": 120, "toys": 60}[crate]
V = "/tmp/w/camp/v"  # copy of /verif
R = "/tmp/w/camp/r%d" % lane
T = "/tmp/w/camp/t%d" % lane
out = "/tmp/w/camp/%s.%d.jsonl" % (crate, lane)

def tokens(line):
    """(kind, start, end) of strings, chars, numbers, idents, operators; comments end the line."""
    i, r = 0, []
    rx = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\(?:u\{[0-9a-fA-F]+\}|x..|.)|[^\'\\])\'|\'[a-z_]+|//.*|[A-Za-z_][A-Za-z_0-9]*|[0-9][0-9_a-zA-Z]*|\.\.=|\.\.|==|!=|<=|>=|&&|\|\||=>|->|::|\+=|-=|[-+*/%<>!|&=(){}\[\],;.#:?]')
    for m in rx.finditer(line):
        t = m.group()
        if t.startswith("//"):
            break
        r.append((t, m.start(), m.end()))
    return r

SWAP = {"==": ["!="], "!=": ["=="], "<=": ["<", ">"], ">=": [">", "<"], "&&": ["||"], "+": ["-"], "-": ["+", "*"], "*": ["-", "+"], "%": ["/"], "/": ["*"],
        "..=": [".."], "..": ["..="], "+=": ["-=", "="], "-=": ["+="],
        "true": ["false"], "false": ["true"], "is_some": ["is_none"], "is_none": ["is_some"], "is_ok": ["is_err"], "is_err": ["is_ok"],
        "of_many0": ["of_many1"], "of_many1": ["of_many0"], "Committed": ["Uncommitted"], "Uncommitted": ["Committed"],
        "min": ["max"], "max": ["min"], "any": ["all"], "all": ["any"], "committed": ["uncommitted"], "uncommitted": ["committed"],
        "elm_ref": ["elm"], "chain_left1": ["chain_right1"], "first": ["last"], "last": ["first"], "starts_with": ["ends_with"],
        "map_while": ["filter"], "take_while": ["skip_while"], "or_else": ["or"], "many0": ["many1"], "many1": ["many0"],
        "elm_alpha": ["elm_alpha_digit"], "elm_digit": ["elm_digit_1_9"], "elm_digit_1_9": ["elm_digit"], "elm_space": ["elm_multi_space"],
        "skip_left": ["skip_right"], "skip_right": ["skip_left"], "Some": [], "to_absolute": ["to_rootless"], "checked_add": ["checked_sub"],
        "lt": ["le"], "le": ["lt"], "get_hours": [], "minute": ["hour"], "hour": ["minute"], "day": ["month"], "month": ["day"],
        "seconds": ["minutes"], "minutes": ["seconds"], "milliseconds": ["microseconds"], "nanoseconds": ["microseconds"]}

def mutants(path):
    src = open(path).read().split("\n")
    depth_test = False
    for n, line in enumerate(src):
        if "#[cfg(test)]" in line:
            break
        s = line.strip()
        if not s or s.startswith(("//", "use ", "pub use", "#", "mod ", "pub mod", "impl", "pub struct", "pub enum", "struct", "enum", "type ", "extern")):
            continue
        ts = tokens(line)
        sig = s.startswith(("pub fn", "fn ", "where", "pub trait"))
        if sig:
            continue
        for k, (t, a, b) in enumerate(ts):
            prev = ts[k - 1][0] if k else ""
            nxt = ts[k + 1][0] if k + 1 < len(ts) else ""
            if t in SWAP:
                spaced = a > 0 and line[a - 1] == " " and b < len(line) and line[b] == " "
                if t in "+-*/%" and not spaced:
                    continue
                if t == "||" :
                    continue
                for x in SWAP[t]:
                    yield n, line[:a] + x + line[b:]
            if t == "||" and line[a - 1] == " " and line[b:b + 1] == " " and prev not in ("(", ",", "move", "="):
                yield n, line[:a] + "&&" + line[b:]
            if t in "<>" and line[a - 1:a] == " " and line[b:b + 1] == " ":
                yield n, line[:a] + t + "=" + line[b:]
                yield n, line[:a] + ("<" if t == ">" else ">") + line[b:]
            if t == "|" and line[a - 1:a] == " " and line[b:b + 1] == " " and k and prev not in ("(", ","):
                yield n, line[:a] + "+" + line[b:]
            if re.fullmatch(r"[0-9]+(u8|i32|i64|usize|u32)?", t):
                m = re.match(r"[0-9]+", t).group()
                yield n, line[:a] + str(int(m) + 1) + t[len(m):] + line[b:]
                if int(m) > 0:
                    yield n, line[:a] + str(int(m) - 1) + t[len(m):] + line[b:]
            if t == "!" and re.match(r"[A-Za-z_(]", line[b:b + 1] or " ") and not re.match(r"[A-Za-z_]", prev or " "):
                yield n, line[:a] + line[b:]
            if t.startswith("'") and len(t) == 3 and t.endswith("'"):
                yield n, line[:a] + "'" + chr(ord(t[1]) + 1).replace("'", "(").replace("\\", "]") + "'" + line[b:]
            if t.startswith("'\\") and t[2] in "nrtbf":
                yield n, line[:a] + "'" + {"n": "\\r", "r": "\\n", "t": " ", "b": "\\t", "f": "\\t"}[t[2]] + "'" + line[b:]
            if t.startswith('"') and len(t) > 2 and "{" not in t and prev != "expect":
                yield n, line[:a] + t[:-2] + '"' + line[b:] if t[-3] != "\\" else line[:a] + '"_"' + line[b:]
                yield n, line[:a] + t[:-1] + 'x"' + line[b:]
            if t == "." and nxt in ("attempt", "rev", "opt", "trim", "reverse", "skip", "cache", "collect", "with_uncommitted", "take", "sort", "dedup"):
                # drop a call, when it is of the form .f(...)
                m = re.match(r"\.\w+\(([^()]*)\)", line[a:])
                if m:
                    yield n, line[:a] + line[a + m.end():]
        m = re.match(r"(\s*(?:\} else )?(?:if|while) )(?!let\b)(.+)( \{)$", line)
        if m and "let " not in m.group(2):
            yield n, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)
        if s.endswith(";") and not s.startswith(("let ", "return", "break", "}", ")", "const", "static", ".")) and line.count("(") == line.count(")") and line.count("{") == line.count("}"):
            yield n, re.match(r"\s*", line).group() + "();"
        m = re.match(r"(\s*)(.+?) => (.+),$", line)
        if m and not s.startswith("_") and line.count("{") == line.count("}") and line.count("(") == line.count(")"):
            yield n, "// " + line.strip()
        m = re.match(r"(\s*)(let (?:mut )?\w+ = )?(.*)\.(filter|map)\((.*)\)(;?)$", line)
        if m and m.group(4) == "filter":
            yield n, "%s%s%s%s" % (m.group(1), m.group(2) or "", m.group(3), m.group(6))
        if s == "continue;":
            yield n, line.replace("continue", "break")
        if s == "break;":
            yield n, line.replace("break;", "")
        if s.startswith("."):  # a call in a chain, on its own line
            m = re.match(r"\.(\w+)\(.*\)(;?)$", s)
            if m and line.count("(") == line.count(")"):
                yield n, "    " + m.group(2)

def sh(cmd, timeout=None):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        class X: returncode = 124; stdout = b"timeout"
        return X()

os.makedirs("/tmp/w/camp", exist_ok=True)
if not os.path.exists(R):
    sh("git clone -q /repo %s && cp /repo/Cargo.lock %s/ 2>/dev/null" % (R, R))
sh("cd %s && git checkout -q -- . && git pull -q" % R)
src = R + "/%s/src" % crate
all_m = []
for d, _, fs in os.walk(src):
    for f in sorted(fs):
        p = os.path.join(d, f)
        if f == "main.rs" or not f.endswith(".rs"):
            continue
        seen = set()
        for n, new in mutants(p):
            if (n, new) not in seen:
                seen.add((n, new))
                all_m.append((p[len(R) + 1:], n, new))
all_m.sort()
random.Random(seed).shuffle(all_m)
mine = all_m[lane::lanes]
done = set()
if os.path.exists(out):
    for l in open(out):
        j = json.loads(l)
        done.add((j["file"], j["line"], j["new"]))
print(len(all_m), "mutants,", len(mine), "in this lane,", len(done), "done", flush=True)
end = time.time() + minutes * 60
harness = {"parser": "parser_h", "crond": "crond_h", "uri": "uri_h", "hocon": "hocon_h", "toys": "toys_h"}[crate]
for f, n, new in mine:
    if (f, n, new) in done:
        continue
    if time.time() > end:
        break
    p = R + "/" + f
    orig = open(p).read()
    lines = orig.split("\n")
    old = lines[n]
    lines[n] = new
    open(p, "w").write("\n".join(lines))
    t0 = time.time()
    ns = "unshare -Urm bash -c 'mount --bind %s /repo && cd %s/harness/%s && %%s'" % (R, V, harness)
    env = "export CARGO_TARGET_DIR=%s CARGO_NET_OFFLINE=true VERIF_ROOT=%s/root VERIF_CASES=%d VERIF_SEED=1 TMPDIR=/tmp/w/camp/tmp%d; mkdir -p $TMPDIR $VERIF_ROOT; " % (T, T, CASES, lane)
    b = sh(ns % (env + "cargo build --offline --quiet"), 600)
    res = {"file": f, "line": n, "old": old.strip(), "new": new}
    if b.returncode != 0:
        res["killed"] = "build"
    else:
        res["killed"] = None
        for i in IDS:
            r = sh(ns % (env + "VERIF_SKIP_REGRESS=1 timeout 300 %s/debug/%s %s" % (T, harness, i)), 400)
            if r.returncode == 1:
                res["killed"] = i
                break
            if r.returncode != 0:
                res["killed"] = "%s rc %d" % (i, r.returncode)
                res["log"] = r.stdout.decode("utf8", "replace")[-300:]
                break
    res["t"] = round(time.time() - t0, 1)
    open(p, "w").write(orig)
    with open(out, "a") as o:
        o.write(json.dumps(res) + "\n")
