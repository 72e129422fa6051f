#!/usr/bin/env python3
"""Decide one property by seeded deterministic simulation of /repo's current working tree.

  check.py P01 [--tier quick|thorough] [--seconds N] [--runs N] [--trees a,b] [--keep DIR]
  check.py P01 --replay FILE

Exit 0: held on everything explored.  1: "VIOLATION property=<id> replay=<path>".  2: the check itself failed.
"""
import argparse, copy, concurrent.futures, glob, json, os, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = os.cpu_count() or 4
sys.path.insert(0, os.path.join(HERE, "trees"))

SIM = ["main", "core", "model", "run", "gen", "plan", "calls"]
BASE = ["-std=c++20", "-O1", "-Wno-dangling-reference", "-include", os.path.join(HERE, "sim/alloc.hpp"),
        "-I" + os.path.join(HERE, "sim"), "-I" + os.path.join(REPO, "include")]
# the second line only saves compile time, FAST as well at the price of memory
TREE = ["-fsanitize-coverage=trace-pc",
        "-pipe", "-fabi-compat-version=0", "-fno-ipa-pure-const", "-fno-ipa-reference", "-fno-ipa-modref", "-fno-tree-pta", "-fno-inline-functions-called-once"]
FAST = ["--param", "ggc-min-expand=10000", "--param", "ggc-min-heapsize=8000000"] if os.sysconf("SC_PAGE_SIZE") * os.sysconf("SC_PHYS_PAGES") > 24 << 30 else []

ALL = ["cat", "help_colour", "help_flat", "help_wide", "lang", "lang2", "limits", "marker", "modes", "no_help", "pos", "probe", "probe2",
       "single", "spell", "strict", "switch", "switch_anon", "switch_anon2", "types", "types2", "unicode"]
HELP = ["cat", "modes", "switch", "switch_anon", "help_colour", "help_flat", "help_wide", "unicode", "strict", "lang2", "lang", "probe"]
PROPS = {  # trees, what the check looks for, level
    "P01": ALL, "P02": ALL, "P03": ALL, "P04": ALL, "P05": ALL,
    "P06": ["spell", "limits", "switch", "lang", "lang2", "cat", "strict", "unicode", "modes", "probe", "types", "types2"],
    "P07": ["switch", "switch_anon", "switch_anon2", "help_flat", "probe2"],
    "P08": ALL, "P09": HELP, "P10": ["lang", "lang2"], "P11": ALL,
    "P12": ALL, "P13": ALL,
    "P14": ["cat", "modes", "pos", "marker", "single", "types", "unicode", "strict", "switch_anon2", "probe", "limits", "lang"],
    "P15": HELP,
}
# trees that take long to compile and the properties whose quick check has them all the same
SLOW = {"types2": ("P04", "P05", "P08"), "lang": ("P01", "P04", "P10", "P12")}
# the library built with other prefixes: long, short
VARIANTS = {"": ("--", "-"), "b": ("-", "-"), "c": ("→→", "→"), "d": ("+++", "/")}
VARIANT_PROPS = ("P02", "P04", "P05", "P06", "P08", "P09", "P13", "P14", "P15")
# built with the address sanitizer; the others see misuse of memory through its effects (released memory is overwritten)
ASAN = {"P03", "P11", "P12", "P13"}
LEVEL = {p: "exploration" for p in PROPS}
LEVEL["P03"] = "fault_enumeration"
RULE = ("Each evaluation is one call (parse or help) made under the simulator: tree, configuration, command line, entry point, fault plan, terminal answers and "
        "schedule all come from the run seed, and the call is judged against the reference model and the accounting. distinct_nontrivial counts distinct call "
        "shapes: (tree, switch configuration, outcome class and router reached, allocation and user-call index at which a fault fired, number of library basic "
        "blocks executed).")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def compile_one(job):
    src, obj, flags = job
    t = time.time()
    r = subprocess.run(["g++"] + BASE + flags + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return src, obj, r.returncode, r.stdout, time.time() - t


# seeds of trees/gen.py whose trees are known to be valid ones (accepted by the library's own compile-time rules)
POOL = [s for s in range(0, 72) if s != 65]
MPOOL = list(range(20))
MPOOL_SMALL = {0, 1, 2, 5, 11, 13, 14}


def size(name):
    import gen
    return len(gen.tree(name, int(name[1:])).emit())


def random_trees(prop, seed, tier):
    """Random trees that have what the property is about, named after their generator seed (m: in several languages)."""
    import gen, random
    want = {"P06": lambda g: g.nsw or g.limits_seen, "P07": lambda g: g.nsw, "P09": lambda g: g.help_seen, "P15": lambda g: g.help_seen,
            "P14": lambda g: g.lists_seen, "P10": lambda g: False}.get(prop, lambda g: True)
    r = ["r%d" % s for s in POOL if want(gen.shape(s))]
    m = ["m%d" % s for s in MPOOL if prop == "P10" or want(gen.shape(s))]
    if tier == "quick":
        rng = random.Random("%s/%d" % (prop, seed))
        rng.shuffle(r)
        return [n for n in r if size(n) < 11000][:3] + (rng.sample([n for n in m if int(n[1:]) in MPOOL_SMALL], 2) if prop == "P10" else [])
    return r + (m if prop == "P10" else m[:6])


def variant_of(name):
    return name[1] if name[0] == "v" and name[2:3] == "_" else ""


def variant_trees(prop, tier):
    if prop not in VARIANT_PROPS:
        return []
    if tier == "quick":
        return {"P09": ["vc_cat", "vb_cat"], "P15": ["vc_cat", "vb_modes"], "P08": ["vb_spell", "vc_cat"]}.get(prop, ["vb_spell", "vc_spell"])
    return ["v%s_%s" % (v, n) for v in VARIANTS if v for n in PROPS[prop] if n in ("spell", "cat", "modes", "switch", "pos", "marker", "limits", "help_flat", "help_colour", "unicode", "single")]


def generated(names, out):
    import curated, gen
    res = {}
    for n in names:
        if variant_of(n):
            t = copy.deepcopy(curated.T[n[3:]])
            t.name = n
        elif n in curated.T:
            t = curated.T[n]
        elif n[0] in "rm" and n[1:].isdigit():
            t = gen.tree(n, int(n[1:]))
        else:
            continue
        path = os.path.join(out, "tree_%s.cpp" % n)
        with open(path, "w") as f:
            f.write(t.emit())
        res[n] = path
    return res


# header, text, replacement, what is lost if the header has no such text
SHADOW = [
    ("bits/new_allocator.h", "# define _GLIBCXX_OPERATOR_NEW ::operator new", "# define _GLIBCXX_OPERATOR_NEW ::sim::std_new<_Tp>", "std::allocator is not observed with this standard library"),
    # libstdc++ takes a variant of these for never valueless, and executes an unreachable switch when an allocation fails in the variant's copy
    # constructor; without the claim its variants behave as specified
    ("bits/basic_string.h", """      : __and_<
	is_nothrow_move_constructible<std::basic_string<_Tp, _Traits, _Alloc>>,
	is_nothrow_move_assignable<std::basic_string<_Tp, _Traits, _Alloc>>
	>::type""", "      : std::false_type", ""),
    ("bits/stl_vector.h", "      : std::is_nothrow_move_assignable<_GLIBCXX_STD_C::vector<_Tp, _Alloc>>", "      : std::false_type", ""),
    ("bits/std_function.h", """struct _Never_valueless_alt<std::function<_Signature>>
      : std::true_type""", """struct _Never_valueless_alt<std::function<_Signature>>
      : std::false_type""", ""),
]


def shadow(out):
    """Copies of standard library headers: std::allocator tells the simulator which element types it serves, and variants survive a failing copy."""
    r = subprocess.run(["g++", "-std=c++20", "-M", "-x", "c++", "-"], input="#include <memory>\n#include <string>\n#include <vector>\n#include <functional>\n",
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    found = {}
    for header, old, new, lost in SHADOW:
        path = next((w for w in r.stdout.split() if w.endswith("/" + header)), None)
        text = ""
        if path:
            with open(path, encoding="utf-8", errors="surrogateescape") as f:
                text = f.read()
        if text.count(old) == 1:
            os.makedirs(os.path.join(out, "shadow/bits"), exist_ok=True)
            with open(os.path.join(out, "shadow", header), "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(text.replace(old, new))
            found[header] = True
        elif lost:
            log("WARNING: " + lost)
    return ["-I" + os.path.join(out, "shadow")] if found else []


def build(names, out, prop):
    t0 = time.time()
    san = ["-fsanitize=address"] if prop in ASAN else []
    extra_defs = san + shadow(out)
    srcs = generated(names, out)
    # the heaviest first
    order = sorted(srcs, key=lambda n: -os.path.getsize(srcs[n]))
    def flags(n):
        v = variant_of(n)
        return TREE + (FAST if os.path.getsize(srcs[n]) < 12000 else []) + list(extra_defs) + (
            ['-DAR_LONG_PREFIX="%s"' % VARIANTS[v][0], '-DAR_SHORT_PREFIX="%s"' % VARIANTS[v][1]] if v else [])
    jobs = [(srcs[n], os.path.join(out, "tree_%s.o" % n), flags(n)) for n in order]
    jobs += [(os.path.join(HERE, "sim", s + ".cpp"), os.path.join(out, s + ".o"), list(extra_defs)) for s in SIM]
    objs, bad = {v: [] for v in VARIANTS}, []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for job, (src, obj, rc, text, _) in zip(jobs, ex.map(compile_one, jobs)):
            if rc and ("Killed signal" in text or "out of memory" in text or "cannot allocate" in text):
                src, obj, rc, text, _ = compile_one((job[0], job[1], [f for f in job[2] if f not in FAST]))
            if rc == 0:
                objs[variant_of(os.path.basename(src)[5:-4]) if os.path.basename(src).startswith("tree_") else ""].append(obj)
            elif os.path.basename(src).startswith("tree_"):
                bad.append(os.path.basename(src)[5:-4])
                log("WARNING: %s does not compile and is left out: %s" % (os.path.basename(src), next((l for l in text.splitlines() if "error" in l), "?")[:300]))
            else:
                log(text[-4000:])
                raise SystemExit(2)
    if len(bad) == len(srcs):
        log("no tree compiles against %s/include" % REPO)
        raise SystemExit(2)
    exes = {}
    for v, l in objs.items():
        if not any(os.path.basename(o).startswith("tree_") for o in l):
            continue
        exe = os.path.join(out, "simrun" + v)
        l = l + [o for o in objs[""] if v and not os.path.basename(o).startswith("tree_")]
        r = subprocess.run(["g++"] + san + ["-o", exe] + l + ["-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            log(r.stdout[-4000:])
            raise SystemExit(2)
        exes[v] = [exe, "--long-prefix", VARIANTS[v][0], "--short-prefix", VARIANTS[v][1]]
    return exes, [n for n in srcs if n not in bad], bad, time.time() - t0


def union(pattern):
    s = set()
    for f in glob.glob(pattern):
        with open(f, "rb") as h:
            b = h.read()
        s.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    return len(s)


def search(exe, prop, seed, tier, runs, seconds, work, replays, extra=()):
    ps = []
    stop = os.path.join(work, "stop")
    for w in range(JOBS):
        ps.append(subprocess.Popen(exe + ["--prop", prop, "--seed", str(seed), "--worker", str(w), "--workers", str(JOBS), "--runs", str(runs), "--seconds", str(seconds),
                                    "--tier", tier, "--out", os.path.join(work, "part%d" % w), "--replays", replays, "--stop", stop] + list(extra),
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace"))
    errs = [p.communicate()[1] for p in ps]
    codes = [p.returncode for p in ps]
    if any(c not in (0, 1) for c in codes):
        log("\n".join(e[-2000:] for e in errs if e))
        log("worker exit codes", codes)
        raise SystemExit(2)
    for e in errs:
        if e:
            log(e[-1000:])
    parts, viol = [], []
    for w in range(JOBS):
        with open(os.path.join(work, "part%d.json" % w), encoding="utf-8", errors="replace") as f:
            parts.append(json.load(f, strict=False))
        with open(os.path.join(work, "part%d.viol" % w), encoding="utf-8", errors="replace", newline="\n") as f:
            viol += [l.rstrip("\n").split("\t") for l in f if l.strip()]
    return parts, viol


def main():
    sys.stdout.reconfigure(errors="replace")
    sys.stderr.reconfigure(errors="replace")
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", choices=sorted(PROPS))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--trees")
    ap.add_argument("--replay")
    ap.add_argument("--keep", help="build here and keep the result")
    a = ap.parse_args()
    t0 = time.time()
    out = a.keep or tempfile.mkdtemp(prefix="arsim-%s-" % a.prop)
    os.makedirs(out, exist_ok=True)
    try:
        return run(a, out, t0)
    finally:
        if not a.keep:
            shutil.rmtree(out, ignore_errors=True)


def run(a, out, t0):
    prop = a.prop
    names = a.trees.split(",") if a.trees else [n for n in PROPS[prop] if a.tier != "quick" or n not in SLOW or prop in SLOW[n]]
    if a.replay:
        with open(a.replay, encoding="utf-8", errors="replace") as f:
            names = sorted({l.split()[1] for l in f if l.startswith("inst ")})
        exes, _, bad, _ = build(names, out, prop)
        if bad:
            return 2
        exe = exes[variant_of(names[0])]
        sys.stdout.flush()
        return subprocess.run(exe + ["--replay", os.path.abspath(a.replay)]).returncode
    if not a.trees:
        names += random_trees(prop, a.seed, a.tier)
        names += variant_trees(prop, a.tier)
    exes, built, bad, build_s = build(names, out, prop)
    quick = a.tier == "quick"
    seconds = a.seconds or (17 if quick else 900)
    runs = a.runs or (60000 if quick else 2000000)
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    parts, viol = [], []
    for i, v in enumerate(exes):
        work = os.path.join(out, "work" + v)
        os.makedirs(work, exist_ok=True)
        p, w = search(exes[v], prop, a.seed + 100000 * i, a.tier, runs, seconds if not v else seconds * (0.15 if quick else 0.2), work, replays)
        parts += p
        viol += w
    tot = {}
    for p in parts:
        for k, v in p.items():
            if isinstance(v, (int, float)) and k not in ("first_seed", "last_seed", "seconds"):
                tot[k] = tot.get(k, 0) + v
    busy = sum(max(p["seconds"] for p in parts[i:i + JOBS]) for i in range(0, len(parts), JOBS))
    other = {}
    for p in parts:
        for k, v in p["kinds"].items():
            other[k] = other.get(k, 0) + v
    distinct = union(os.path.join(out, "work*", "part*.shapes"))
    inter = union(os.path.join(out, "work*", "part*.scheds"))
    distinct_runs = union(os.path.join(out, "work*", "part*.runs"))
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": LEVEL[prop],
        "coverage": {
            "evaluations": tot.get("ops", 0), "distinct_nontrivial": distinct, "rule": RULE,
            "samples": [s for p in parts[:3] for s in p["samples"][:1]],
            "simulated_runs": tot.get("runs", 0), "distinct_runs": distinct_runs, "search_seconds": round(busy, 1), "build_seconds": round(build_s, 1),
            "runs_per_hour": int(tot.get("runs", 0) / max(busy, 0.1) * 3600), "seeds_per_hour": int(tot.get("runs", 0) / max(busy, 0.1) * 3600),
            "simulated_time": "%d basic blocks of library code (the simulated clock; the library reads no real one)" % tot.get("steps", 0),
            "basic_blocks": tot.get("steps", 0), "task_switches": tot.get("switches", 0), "runs_with_several_callers": tot.get("multi", 0),
            "distinct_interleavings": inter, "interleaving_measure": "distinct sequences of (caller, basic blocks executed) slices over the runs with several callers",
            "outcomes": {"accepted": tot.get("accepted", 0), "rejected": tot.get("rejected", 0), "help_calls": tot.get("helps", 0), "only_loosely_specified": tot.get("loose", 0)},
            "faults_fired": {"allocation_fails_once": tot.get("f_alloc", 0), "allocation_fails_from_there_on": tot.get("f_alloc_persist", 0),
                             "user_code_throws": tot.get("f_throw", 0), "user_code_throws_non_standard": tot.get("f_oddball", 0),
                             "converter_rejects": tot.get("f_userbad", 0), "output_stream_fails": tot.get("f_sink", 0), "terminal_query_fails": tot.get("f_ioctl", 0),
                             "narrow_terminal": tot.get("f_narrow", 0), "process_exit": tot.get("f_exit", 0)},
            "fault_points_seen": {"allocations": tot.get("allocs", 0), "user_callable_invocations": tot.get("users", 0)},
            "configurations_with_disabled_nodes": tot.get("off", 0), "compared_groups": tot.get("groups", 0), "private_instances": tot.get("fresh", 0),
            "determinism_rechecks": tot.get("determinism_rechecks", 0), "rechecks_that_differed": tot.get("nondeterministic", 0), "solo_reruns": tot.get("solo_runs", 0),
            "trees": built, "prefix_variants": {v or "default": VARIANTS[v] for v in exes}, "trees_that_do_not_compile": bad,
            "findings_of_any_property": other, "violations_not_reproduced": tot.get("unreproduced", 0),
            "real_components": "all of include/arg_router as compiled from the working tree, libstdc++",
            "stubs": "scheduler, allocator facilities (counting, failing), ioctl/terminal, output sinks, process exit, user callables (converters, routers, value type)",
        },
        "assumptions": ["code outside the compiled trees runs between scheduling points only at basic block edges of instrumented code", "g++ -O1" + (" with address sanitizer" if prop in ASAN else ", memory overwritten when handed out and when released")],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d calls, %d distinct, %d faults, build %.0f s, search %.0f s" %
          (prop, a.tier, tot.get("runs", 0), tot.get("ops", 0), distinct, sum(ev["coverage"]["faults_fired"].values()), build_s, busy))
    if tot.get("nondeterministic"):
        log("WARNING: %d rechecked runs were not repeatable" % tot["nondeterministic"])
    if viol:
        for v in viol[:3]:
            print("  " + " ".join(v[1:])[:600].replace("\x01", "\\n"))
        viol.sort(key=lambda v: os.path.getsize(v[0]))
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][0]))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
