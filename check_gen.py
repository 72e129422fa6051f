#!/usr/bin/env python3
"""P18: the translation header generator under a simulated file system.

  check_gen.py P18 [--tier quick|thorough] [--seconds N]
  check_gen.py P18 --replay FILE

The real script (cmake -P cmake/translation_generator/translation_generator_script.cmake, or a project that calls
arg_router_translation_generator()) runs on seeded translation files and histories of edits; tg/fsfault.c, preloaded,
numbers every file operation and makes one of them fail, fall short or be the process' last.  After every run the
headers are parsed and compared with what the files say.
Exit 0: held on everything explored.  1: "VIOLATION property=P18 replay=<path>".  2: the check itself failed.
"""
import argparse, hashlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GEN = os.path.join(REPO, "cmake/translation_generator")
JOBS = os.cpu_count() or 4

KEYS = ["force", "force_description", "destination", "help", "help_description", "program_intro", "copy", "source", "x", "y1", "lines", "line", "key", "value", "header"]
CODES = ["unknown_argument", "unhandled_arguments", "argument_has_already_been_set", "failed_to_parse", "no_arguments_passed", "minimum_value_not_reached",
         "maximum_value_exceeded", "minimum_count_not_reached", "maximum_count_exceeded", "unknown_argument_with_suggestion", "mode_requires_arguments",
         "missing_required_argument", "too_few_values_for_alias", "dependent_argument_missing", "one_of_selected_type_mismatch", "missing_value_separator"]
LANGS = ["en_GB", "fr", "ja", "de_DE", "zh_Hans", "pt_BR", "en_GB.v2", "es"]
BITS = ["a", "Help", "word", " ", " ", ";", "[", "]", "[x]", "\\\\", "\\\"", "\\n", "{}", "{ }", "${HOME}", "$", "@x@", "#", " = ", "=", ",", "<", ">", "//", "/*", "(", ")", "'",
        "é", "日本語", "した", "ж", "%", "\t", "::", "::translation", "?", "!", ". ", "\\x41"]
COMMENTS = ["# comment", "#", "# a; b [ c", "# ] end", "# ends in a backslash \\", "#key = \"value\"", "# \"quoted", "#[error_code]"]
BAD = ["bad line", "key", "key=\"value\"", "\"only a value\"", "key =", "[section]", "= \"x\"", "key:\"v\""]
KINDS = ["crash", "crash", "torn", "torn", "enospc", "enospc", "eio", "short", "short", "emfile", "eacces"]


# ------------------------------------------------------------------------------------------- scenarios
def literal(r):
    return '"' + "".join(r.choice(BITS) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8, 12]))) + '"'


def make_file(r):
    lines = []
    def filler():
        if r.random() < 0.2:
            lines.append(r.choice(COMMENTS))
        if r.random() < 0.15:
            lines.append("")
    for k in r.sample(KEYS, r.randint(0, len(KEYS))):
        filler()
        lines.append("%s = %s" % (k, literal(r)))
    filler()
    if r.random() < 0.6:
        lines.append("[error_code]")
        for k in r.sample(CODES, r.choice([1, 1, 2, 5, len(CODES)])):
            filler()
            lines.append("%s = %s" % (k, literal(r)))
        filler()
    if r.random() < 0.12:
        lines.insert(r.randint(0, len(lines)), r.choice(BAD))
    if not any(l and l[0] != "#" for l in lines):
        lines.append("only = " + literal(r))
    return {"lines": lines, "crlf": r.random() < 0.15, "end": r.random() < 0.85, "bom": r.random() < 0.08, "pad": 0 if r.random() < 0.9 else r.choice([4000, 8100, 20000])}


def make_plan(seed):
    r = random.Random("tg/%s" % seed)
    langs = r.sample(LANGS, r.choice([1, 1, 2, 3]))
    steps = []
    for i in range(r.choice([1, 2, 2, 3, 4])):
        s = {"edit": {}, "touch": {}}
        for l in langs:
            x = r.random()
            if i == 0 or x < 0.35:
                s["edit"][l] = make_file(r)
            elif x < 0.45:
                s["edit"][l] = "drop"          # loses its last entry
            elif x < 0.5:
                s["edit"][l] = "missing"
        for l in langs:
            if r.random() < 0.15:
                s["touch"][l] = r.choice(["remove", "truncate", "garbage", "empty"])
        if r.random() < 0.6:
            s["fault"] = [r.random(), r.choice(KINDS), r.randint(0, 5000)]
        if r.random() < 0.5:
            s["fault"] = s.get("fault") and ["write"] + s["fault"]
        steps.append(s)
    return {"seed": seed, "langs": langs, "steps": steps, "project": r.random() < 0.04, "dir": r.choice(["d", "d", "d", "d e", "d\u00e9", "d+(1)"])}


def content(f):
    nl = "\r\n" if f["crlf"] else "\n"
    lines = (["# " + "p" * f["pad"]] if f["pad"] else []) + f["lines"]
    t = nl.join(lines) + (nl if f["end"] and lines else "")
    return (b"\xef\xbb\xbf" if f["bom"] else b"") + t.encode()


# ------------------------------------------------------------------------------------------- the two readings
class Bad(Exception):
    pass


def read_source(data):
    """entries and error messages of a translation file, by the documented format"""
    t = data.decode()
    if t.startswith("\ufeff"):
        t = t[1:]
    entries, codes, section = {}, {}, False
    for line in t.split("\n"):
        line = line.rstrip("\r")
        if line == "" or line[0] == "#":
            continue
        if line == "[error_code]":
            section = True
            continue
        k, d, v = line.partition(" = ")
        if not d:
            raise Bad(line)
        if not re.fullmatch(r"[A-Za-z_]\w*", k):
            raise Bad(line)
        (codes if section else entries)[k] = v
    return entries, codes, section


TOKEN = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|[A-Za-z_]\w*|::|[<>{}();:,=]', re.S)


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise Bad("unexpected text %r" % text[i:i + 20])
        t = m.group()
        if not t.isspace() and not t.startswith("//") and not t.startswith("/*"):
            out.append(t)
        i = m.end()
    return out


def preprocess(text, cpp20):
    out, on = [], [True]
    for l in text.split("\n"):
        s = l.strip()
        if s.startswith("#"):
            d = s[1:].split()
            if d[0] == "ifdef" or d[0] == "if":
                on.append(("AR_ENABLE_CPP20_STRINGS" in s) and (cpp20 != ("!" in s)))
            elif d[0] == "ifndef":
                on.append(not cpp20)
            elif d[0] == "else":
                on[-1] = not on[-1]
            elif d[0] == "endif":
                on.pop()
            elif d[0] not in ("pragma", "include"):
                raise Bad("directive " + s)
        elif all(on):
            out.append(l)
    if len(on) != 1:
        raise Bad("unbalanced directives")
    return "\n".join(out)


class Parser:
    def __init__(self, toks, cpp20):
        self.t, self.i, self.cpp20 = toks, 0, cpp20
    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""
    def want(self, *ws):
        for w in ws:
            if self.peek() != w:
                raise Bad("expected %s, found %r" % (w, " ".join(self.t[self.i:self.i + 4])))
            self.i += 1
    def maybe(self, w):
        if self.peek() == w:
            self.i += 1
            return True
        return False
    def ident(self):
        if not re.fullmatch(r"[A-Za-z_]\w*", self.peek()):
            raise Bad("expected a name, found %r" % self.peek())
        self.i += 1
        return self.t[self.i - 1]
    def string(self):
        cpp20 = self.cpp20 and self.maybe("str")       # S_() works in both, str<> only where there are string template arguments
        if not cpp20:
            self.want("S_")
        self.want("<" if cpp20 else "(")
        if not self.peek().startswith('"'):
            raise Bad("expected a literal, found %r" % self.peek())
        v = self.peek()
        self.i += 1
        while self.peek().startswith('"'):
            v = v[:-1] + self.peek()[1:]
            self.i += 1
        self.want(">" if cpp20 else ")")
        return v
    def header(self):
        self.want("namespace", "arg_router", "::", "multi_lang", "{", "template", "<", ">", "class" if self.t[8:9] == ["class"] else "struct", "translation", "<")
        lang = self.string()
        self.want(">", "{")
        if self.maybe("public"):
            self.want(":")
        entries, codes, section = {}, {}, False
        while not self.maybe("}"):
            self.want("using")
            k = self.ident()
            self.want("=")
            if k == "error_code_translations":
                section = True
                self.want("std", "::", "tuple", "<")
                first = True
                while not self.maybe(">"):
                    if not first:
                        self.want(",")
                    first = False
                    self.want("std", "::", "pair", "<")
                    if self.maybe("arg_router"):
                        self.want("::")
                    self.want("traits", "::", "integral_constant", "<", "error_code", "::")
                    c = self.ident()
                    self.want(">", ",")
                    if c in codes:
                        raise Bad("twice: " + c)
                    codes[c] = self.string()
                    self.want(">")
                self.want(";")
                continue
            if k in entries:
                raise Bad("twice: " + k)
            entries[k] = self.string()
            self.want(";")
        self.want(";", "}")
        if self.i != len(self.t):
            raise Bad("more after the end")
        return lang, entries, codes, section


def wrong(lang, source, data):
    """what is wrong with this header for this source, or None"""
    want = read_source(source)
    try:
        text = data.decode()
        for cpp20 in (True, False):
            body = preprocess(text, cpp20)
            got = Parser(tokens(body), cpp20).header()
            if got[0] != '"%s"' % lang:
                return "is for language %s" % got[0]
            for a, b, what in ((want[0], got[1], "entries"), (want[1], got[2], "messages")):
                if a != b:
                    d = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
                    return "%s differ: %s" % (what, "; ".join("%s is %s, should be %s" % (k, b.get(k), a.get(k)) for k in d[:3]))
    except (Bad, UnicodeDecodeError) as e:
        return "is not a translation header: %s" % e
    return None


# ------------------------------------------------------------------------------------------- one run
PROJECT = """cmake_minimum_required(VERSION 3.15)
project(p NONE)
include("%s/translation_generator.cmake")
arg_router_translation_generator(SOURCES %s OUTPUT_DIR "%s" TARGET t)
"""


def execute(plan, work, lib):
    """-> (finding or None, stats); finding = (kind, text)"""
    base = os.path.join(work, plan.get("dir", "d"))
    shutil.rmtree(base, ignore_errors=True)
    src, out = os.path.join(base, "in"), os.path.join(base, "out")
    os.makedirs(src)
    files, st, trace = {}, {"ops": 0, "faults": {}, "calls": 0, "ok": 0, "rejected": 0, "died": 0, "files": 0, "project": 0}, hashlib.sha256()
    path = lambda l: os.path.join(src, l + ".toml")
    hdr = lambda l: os.path.join(out, l + ".hpp")
    if plan["project"]:
        st["project"] = 1

    def look(l):
        try:
            with open(hdr(l), "rb") as f:
                d = f.read()
            s = os.stat(hdr(l))
            return d, (s.st_mtime_ns, s.st_ino)
        except FileNotFoundError:
            return None, None

    def call(fault, log):
        env = {k: v for k, v in os.environ.items() if not k.startswith("FS_")}
        env.update(LD_PRELOAD=lib, FS_DIR=base, FS_LOG=log)
        if fault:
            env["FS_PLAN"] = "%d %s %d" % tuple(fault)
        if os.path.exists(log):
            os.unlink(log)
        if plan["project"]:
            bld, pd = os.path.join(work, "b"), os.path.join(work, "p")
            os.makedirs(pd, exist_ok=True)
            with open(os.path.join(pd, "CMakeLists.txt"), "w") as f:
                f.write(PROJECT % (GEN, " ".join('"%s"' % path(l) for l in plan["langs"]), out))
            env2 = dict(env)
            for k in ("LD_PRELOAD", "FS_PLAN"):
                env2.pop(k, None)
            c = subprocess.run(["cmake", "-S", pd, "-B", bld], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env2)
            if c.returncode:
                return c.returncode, c.stdout.decode(errors="replace")
            cmd = ["cmake", "--build", bld, "--target", "t"]
        else:
            cmd = ["cmake", "-DSOURCES=" + ";".join(path(l) for l in plan["langs"]), "-DOUTPUT_DIR=" + out, "-P", os.path.join(GEN, "translation_generator_script.cmake")]
        st["calls"] += 1
        try:
            c = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=60)
        except subprocess.TimeoutExpired:
            return None, "timeout"
        return c.returncode, c.stdout.decode(errors="replace")

    last_ops = []
    for i, s in enumerate(plan["steps"]):
        for l, e in s["edit"].items():
            if e == "drop":
                cur = files.get(l)
                e = dict(cur, lines=cur["lines"][:-1] or ["only = \"\""]) if isinstance(cur, dict) else {"lines": ["only = \"\""], "crlf": False, "end": True, "bom": False, "pad": 0}
            files[l] = e
            if e == "missing":
                if os.path.exists(path(l)):
                    os.unlink(path(l))
            else:
                with open(path(l), "wb") as f:
                    f.write(content(e))
        for l, how in s["touch"].items():
            if not os.path.exists(hdr(l)):
                continue
            with open(hdr(l), "rb") as f:
                d = f.read()
            if how == "remove":
                os.unlink(hdr(l))
            else:
                with open(hdr(l), "wb") as f:
                    f.write({"truncate": d[:len(d) * 2 // 3], "garbage": b"// edited by hand\n" + d, "empty": b""}[how])
        sources = {l: content(files[l]) for l in plan["langs"] if files[l] != "missing"}
        bad = set()
        for l in plan["langs"]:
            try:
                if files[l] == "missing":
                    raise Bad("missing")
                read_source(sources[l])
            except Bad:
                bad.add(l)
        fault, log = None, os.path.join(work, "log")
        before = {l: look(l) for l in plan["langs"]}
        st["files"] += len(plan["langs"])
        f = s.get("fault")
        if f:
            only_writes = f[0] == "write"
            x, kind, arg = f[-3:]
            # the operations of this very step are found by a rehearsal on a copy that is put back
            keep = os.path.join(work, "keep")
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(base, keep, symlinks=True, copy_function=shutil.copy2)
            call(None, log)
            ops = []
            if os.path.exists(log):
                with open(log) as h:
                    ops = [o.split() for o in h]
            shutil.rmtree(base)
            shutil.copytree(keep, base, symlinks=True, copy_function=shutil.copy2)
            before = {l: look(l) for l in plan["langs"]}
            ok = [k for k, o in enumerate(ops) if (not only_writes or o[1] in ("open-write", "write", "rename", "close", "unlink"))
                  and (kind in ("crash",) or (kind in ("torn",) and o[1] == "write") or (kind == "short" and o[1] in ("read", "write")) or
                       (kind == "enospc" and o[1] in ("write", "open-write", "mkdir", "rename")) or (kind == "eio" and o[1] in ("write", "open-write", "rename")) or
                       (kind in ("emfile", "eacces") and o[1].startswith("open")))]
            if ok:
                fault = [ok[int(x * len(ok))], kind, arg]
        rc, text = call(fault, log)
        ops = []
        if os.path.exists(log):
            with open(log) as h:
                ops = h.read().split("\n")
        fired = bool(fault) and len(ops) - 1 > fault[0]
        if fired:
            st["faults"][fault[1] + "@" + ops[fault[0]].split()[1]] = st["faults"].get(fault[1] + "@" + ops[fault[0]].split()[1], 0) + 1
        st["ops"] += len(ops) - 1
        trace.update(("%s %s" % (rc, "\n".join(ops))).encode())
        after = {l: look(l) for l in plan["langs"]}
        st["ok" if rc == 0 else "died" if fired and fault[1] in ("crash", "torn") else "rejected"] += 1
        for l in plan["langs"]:
            trace.update(repr(after[l][0]).encode())
        where = "step %d (fault %s, exit status %s): " % (i, fault and " ".join(map(str, fault)) if fired else None, rc)
        if rc is None:
            return ("hang", where + "the generator did not end"), st, trace.hexdigest()
        for l, d in sources.items():
            with open(path(l), "rb") as h:
                if h.read() != d:
                    return ("source", where + "%s.toml was changed" % l), st, trace.hexdigest()
        died = fired and fault[1] in ("crash", "torn")
        if rc == 0:
            if bad:
                return ("accepted", where + "a malformed or missing file was accepted: %s" % ", ".join(sorted(bad))), st, trace.hexdigest()
            for l in plan["langs"]:
                if after[l][0] is None:
                    return ("absent", where + "%s.hpp was not generated" % l), st, trace.hexdigest()
                w = wrong(l, sources[l], after[l][0])
                if w:
                    return ("content", where + "%s.hpp %s" % (l, w)), st, trace.hexdigest()
                if before[l][0] == after[l][0] and before[l][1] != after[l][1]:
                    return ("rewritten", where + "%s.hpp was up to date and was written again" % l), st, trace.hexdigest()
            extra = sorted(set(os.listdir(out)) - {l + ".hpp" for l in plan["langs"]})
            if extra and not died and not any(p.get("fault") for p in plan["steps"][:i + 1]):
                return ("extra", where + "left behind: %s" % extra), st, trace.hexdigest()
        elif not bad and not fired:
            return ("rejected", where + "well-formed files were rejected: %s" % text.strip()[:300]), st, trace.hexdigest()
        elif not died:
            for l in plan["langs"]:
                if after[l][0] == before[l][0] or after[l][0] is None and l not in bad:
                    continue
                if l in bad:
                    return ("bad-header", where + "the header of the malformed %s.toml was touched" % l), st, trace.hexdigest()
                w = wrong(l, sources[l], after[l][0])
                if w:
                    return ("partial", where + "a failed run left %s.hpp, which %s" % (l, w)), st, trace.hexdigest()
        if fired:
            # nothing a failure left behind may survive the next run
            good = [l for l in plan["langs"] if l not in bad]
            if not bad:
                rc, text = call(None, log)
                if rc != 0:
                    return ("unrepaired", where + "the next run fails: %s" % text.strip()[:300]), st, trace.hexdigest()
                for l in good:
                    d = look(l)[0]
                    w = "is absent" if d is None else wrong(l, sources[l], d)
                    if w:
                        return ("unrepaired", where + "after the next run %s.hpp %s" % (l, w)), st, trace.hexdigest()
    return None, st, trace.hexdigest()


def minimise(plan, kind, work, lib, limit):
    end = time.time() + limit
    def still(p):
        if time.time() > end:
            return False
        try:
            f, _, _ = execute(p, work, lib)
        except Exception:
            return False
        return f is not None and f[0] == kind
    def copy(p):
        return json.loads(json.dumps(p))
    changed = True
    while changed and time.time() < end:
        changed = False
        cands = []
        if plan["project"]:
            c = copy(plan); c["project"] = False; cands.append(c)
        if plan.get("dir", "d") != "d":
            c = copy(plan); c["dir"] = "d"; cands.append(c)
        for l in plan["langs"]:
            if len(plan["langs"]) > 1:
                c = copy(plan); c["langs"].remove(l)
                for s in c["steps"]:
                    s["edit"].pop(l, None); s["touch"].pop(l, None)
                cands.append(c)
        for i in range(len(plan["steps"])):
            if len(plan["steps"]) > 1 and i > 0:
                c = copy(plan); del c["steps"][i]; cands.append(c)
            if plan["steps"][i].get("fault"):
                c = copy(plan); c["steps"][i]["fault"] = None; cands.append(c)
            for l in list(plan["steps"][i]["touch"]):
                c = copy(plan); del c["steps"][i]["touch"][l]; cands.append(c)
            for l, e in plan["steps"][i]["edit"].items():
                if i > 0:
                    c = copy(plan); del c["steps"][i]["edit"][l]; cands.append(c)
                if isinstance(e, dict):
                    for k, v in (("crlf", False), ("bom", False), ("end", True), ("pad", 0)):
                        if e[k] != v:
                            c = copy(plan); c["steps"][i]["edit"][l][k] = v; cands.append(c)
                    for k in range(len(e["lines"])):
                        if len(e["lines"]) > 1:
                            c = copy(plan); del c["steps"][i]["edit"][l]["lines"][k]; cands.append(c)
        for c in cands:
            if still(c):
                plan, changed = c, True
                break
    return plan


def worker(args):
    w, seed, seconds, root, lib, stop = args
    work = os.path.join(root, "w%d" % w)
    os.makedirs(work, exist_ok=True)
    tot = {"runs": 0, "faults": {}, "shapes": set(), "distinct": set(), "samples": [], "rechecked": 0, "differed": 0, "unreproduced": 0, "viol": None, "seconds": 0}
    t0 = time.time()
    n = 0
    while time.time() - t0 < seconds and not os.path.exists(stop):
        s = "%d-%d" % (seed, w + JOBS * n)
        n += 1
        plan = make_plan(s)
        f, st, h = execute(plan, work, lib)
        tot["runs"] += 1
        for k, v in st.items():
            if k == "faults":
                for a, b in v.items():
                    tot["faults"][a] = tot["faults"].get(a, 0) + b
                    tot["shapes"].add((a, len(plan["langs"]), len(plan["steps"])))
            else:
                tot[k] = tot.get(k, 0) + v
        tot["distinct"].add(h[:16])
        if len(tot["samples"]) < 2:
            tot["samples"].append("seed %s: %s" % (s, json.dumps(plan, ensure_ascii=False)[:900]))
        if n % 32 == 0 or f:
            f2, _, h2 = execute(plan, work, lib)
            tot["rechecked"] += 1
            if h2 != h:
                tot["differed"] += 1
            if f and (f2 is None or f2[0] != f[0]):
                tot["unreproduced"] += 1
                f = None
        if f:
            open(stop, "w").close()
            small = minimise(plan, f[0], work, lib, 45)
            f2, _, h2 = execute(small, work, lib)
            tot["viol"] = (s, small, f2 or f, h2)
            break
    tot["seconds"] = time.time() - t0
    return tot


def main():
    sys.stdout.reconfigure(errors="replace")
    sys.stderr.reconfigure(errors="replace")
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", choices=["P18"])
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    root = tempfile.mkdtemp(prefix="arsim-P18-")
    try:
        lib = os.path.join(root, "fsfault.so")
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", lib, os.path.join(HERE, "tg/fsfault.c"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout, file=sys.stderr)
            return 2
        if a.replay:
            with open(a.replay) as f:
                rep = json.load(f)
            f, _, h = execute(rep["plan"], root, lib)
            print("%s; trace %s" % ("%s: %s" % f if f else "no violation", "as recorded" if h == rep["trace"] else "differs from the recorded one"))
            return 1 if f else 0
        seconds = a.seconds or (20 if a.tier == "quick" else 900)
        stop = os.path.join(root, "stop")
        with mp.Pool(JOBS) as pool:
            parts = pool.map(worker, [(w, a.seed, seconds, root, lib, stop) for w in range(JOBS)], chunksize=1)
        tot, faults, shapes, distinct = {}, {}, set(), set()
        for p in parts:
            for k, v in p.items():
                if isinstance(v, (int, float)):
                    tot[k] = tot.get(k, 0) + v
            for k, v in p["faults"].items():
                faults[k] = faults.get(k, 0) + v
            shapes |= p["shapes"]
            distinct |= p["distinct"]
        busy = max(p["seconds"] for p in parts)
        viol = [p["viol"] for p in parts if p["viol"]]
        ev = {"property": "P18", "tier": a.tier, "seed": a.seed, "level": "exploration",
              "coverage": {
                  "evaluations": tot.get("calls", 0), "distinct_nontrivial": len(distinct),
                  "rule": "Each evaluation is one run of the real generator on seeded translation files, previous headers and a fault plan, judged against a reading of the files. "
                          "distinct_nontrivial counts distinct executions: hash of every file operation, exit status and resulting header of all steps of a run.",
                  "samples": [s for p in parts[:3] for s in p["samples"][:1]], "simulated_runs": tot["runs"], "search_seconds": round(busy, 1),
                  "runs_per_hour": int(tot["runs"] / max(busy, 0.1) * 3600), "seeds_per_hour": int(tot["runs"] / max(busy, 0.1) * 3600),
                  "simulated_time": "%d file operations (the generator reads no clock)" % tot.get("ops", 0),
                  "faults_fired": faults, "fault_shapes": len(shapes), "translation_files": tot.get("files", 0),
                  "outcomes": {"succeeded": tot.get("ok", 0), "failed": tot.get("rejected", 0), "died": tot.get("died", 0)}, "through_a_project": tot.get("project", 0),
                  "determinism_rechecks": tot["rechecked"], "rechecks_that_differed": tot["differed"], "violations_not_reproduced": tot["unreproduced"],
                  "real_components": "cmake/translation_generator from the working tree, cmake, the kernel's file system in a scratch directory",
                  "stubs": "file operations of the cmake process pass tg/fsfault.c, which counts, fails, cuts short, or ends the process"},
              "assumptions": ["what the file system keeps after a crash is what had been written before it (no reordering of writes)", "a read error is not injected: CMake's own commands take it for the end of the file"],
              "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", "P18.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("P18 %s: %d runs, %d generator calls, %d distinct, %d faults, %.0f s" % (a.tier, tot["runs"], tot.get("calls", 0), len(distinct), sum(faults.values()), busy))
        if tot["differed"]:
            print("WARNING: %d rechecked runs were not repeatable" % tot["differed"], file=sys.stderr)
        if viol:
            s, plan, f, h = viol[0]
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "P18-%s.json" % s)
            with open(path, "w") as o:
                json.dump({"plan": plan, "finding": f, "trace": h}, o, indent=1, ensure_ascii=False)
            print("  %s: %s" % tuple(f))
            print("VIOLATION property=P18 replay=%s" % path)
            return 1
        return 0
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
