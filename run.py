#!/usr/bin/env python3
"""Builds a property program from /repo's current working tree and runs it.

  run.py --property C01 [--tier quick|thorough] [--seed N]
  run.py --setup                      build every property program
  run.py --replay FILE                re-run a stored counterexample

Exit status: 0 the property held on everything explored, 1 violated (with a
VIOLATION line), anything else is an error of the check.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")

CXX = "/usr/bin/clang++-14"
BASEFLAGS = ("-nostdinc++ -cxx-isystem /usr/include/c++/12 -cxx-isystem /usr/include/x86_64-linux-gnu/c++/12 "
             "-std=c++20 -g1 -w -fPIC -I/usr/include/eigen3 "
             # What is left uninitialised has the same (for numbers, not-a-number) content every time
             "-ftrivial-auto-var-init=pattern "
             "-DCPPHTTPLIB_OPENSSL_SUPPORT -DCPPHTTPLIB_ZLIB_SUPPORT -DCPPHTTPLIB_BROTLI_SUPPORT")
VARIANTS = {
    # The default: optimised, with address and undefined-behaviour sanitizers. Only functions declared inline are
    # inlined: /repo relies on implicitly instantiated templates of one file being linked from another.
    "asan": "-O1 -finline-hint-functions -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr "
            "-fno-sanitize-recover=undefined",
    "tsan": "-O1 -finline-hint-functions -fsanitize=thread",
    "fuzz": "-O1 -finline-hint-functions -fno-omit-frame-pointer -fsanitize=address,undefined,fuzzer-no-link -fno-sanitize=vptr "
            "-fno-sanitize-recover=undefined -DPBT_NO_MAIN",
}
LIBS = "-lm -lstdc++ -luuid -pthread -lglog -lfmt -lprotobuf"

LABEL_RE = re.compile(r'#include\s+"(resim/[^"]+)"')


class Tree:
    """What the BUILD files of /repo say."""

    def __init__(self):
        self.targets, self.owner = {}, {}
        for d, subs, files in os.walk(os.path.join(REPO, "resim")):
            subs.sort()
            if "BUILD" in files:
                self.read(os.path.join(d, "BUILD"))

    def read(self, path):
        package = os.path.relpath(os.path.dirname(path), REPO)

        def absolute(label):
            if label.startswith(":"):
                return "//%s%s" % (package, label)
            if label.startswith("@"):
                return label
            if label.startswith("//"):
                return label if ":" in label else label + ":" + label.rsplit("/", 1)[1]
            return "//%s:%s" % (package, label)

        def rule(kind):
            def declare(name=None, srcs=(), hdrs=(), deps=(), **_):
                label = "//%s:%s" % (package, name)
                fs = [os.path.join(package, x.lstrip(":")) for x in list(srcs) + list(hdrs)]
                self.targets[label] = dict(kind=kind, files=fs, deps=[absolute(x) for x in deps])
                if kind != "cc_test":
                    for f in fs:
                        self.owner.setdefault(f, label)
            return declare

        class Names(dict):
            def __missing__(self, key):
                return rule(key) if key.startswith(("cc_", "proto_", "py_")) else (lambda *a, **k: None)

        def glob_(include, **_):
            return [os.path.relpath(x, os.path.join(REPO, package)) for p in include
                    for x in sorted(glob.glob(os.path.join(REPO, package, p), recursive=True))]

        names = Names(glob=glob_, select=lambda x: [])
        try:
            exec(compile(open(path).read(), path, "exec"), {"__builtins__": {}}, names)
        except Exception as e:  # unreadable BUILD files are compensated for by include scanning
            print("note: %s: %s" % (path, e), file=sys.stderr)


def includes(path):
    try:
        return LABEL_RE.findall(open(path, errors="replace").read())
    except OSError:
        return []


def closure(roots, tree):
    """Every .cc and .proto of /repo that a program including `roots` needs: by BUILD dependencies and by includes."""
    seen, files, labels = set(), set(), set()
    todo = list(roots)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        if f.endswith(".pb.h"):
            p = f[:-5] + ".proto"
            if os.path.exists(os.path.join(REPO, p)):
                todo.append(p)
            continue
        full = os.path.join(REPO, f)
        if not os.path.exists(full):
            continue
        files.add(f)
        if f.endswith(".proto"):
            todo += re.findall(r'import\s+"(resim/[^"]+)"', open(full).read())
        else:
            todo += includes(full)
            if f.endswith(".hh"):
                todo.append(f[:-3] + ".cc")
        label = tree.owner.get(f)
        stack = [label] if label else []
        while stack:
            l = stack.pop()
            if l in labels or l not in tree.targets:
                continue
            labels.add(l)
            t = tree.targets[l]
            if t["kind"] in ("cc_binary", "cc_test"):
                continue
            todo += t["files"]
            stack += t["deps"]
    return files


def header(path):
    return dict(re.findall(r"^//\s*@(\w+):\s*(.*)$", open(path).read(), re.M))


def program_file(prop):
    c = sorted(glob.glob(os.path.join(HARNESS, "props", prop + "_*.cc")))
    if len(c) != 1:
        sys.exit("no single program for %s: %s" % (prop, c))
    return c[0]


def all_props():
    return sorted({os.path.basename(p).split("_")[0] for p in glob.glob(os.path.join(HARNESS, "props", "*.cc"))})


def write(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)


def build(progs):
    """progs: list of (property, variant). Returns {(property, variant): binary}."""
    tree = Tree()
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    out = ["ninja_required_version = 1.10\nbuilddir = %s\n" % BUILD,
           "rule cxx\n  command = %s $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n" % CXX,
           "rule protoc\n  command = cd %s && protoc -I. --cpp_out=%s $src\n" % (REPO, gen),
           "rule link\n  command = %s $flags @$out.rsp -o $out $libs\n  rspfile = $out.rsp\n  rspfile_content = $in\n\n" % CXX]
    done, bins, protos_all = set(), {}, set()
    plans = []
    for prop, variant in progs:
        src = program_file(prop)
        h = header(src)
        harness_srcs = [src, os.path.join(HARNESS, "pbt_fuzz.cc" if variant == "fuzz" else "pbt_main.cc")]
        harness_srcs += [os.path.join(HARNESS, x) for x in h.get("sources", "").split()]
        roots = []
        seen = set()
        todo = list(harness_srcs)
        while todo:  # the harness's own headers
            f = todo.pop()
            if f in seen or not os.path.exists(f):
                continue
            seen.add(f)
            text = open(f).read()
            for inc in re.findall(r'#include\s+["<]([^">]+)[">]', text):
                if inc.startswith("resim/"):
                    roots.append(inc)
                elif os.path.exists(os.path.join(HARNESS, inc)):
                    todo.append(os.path.join(HARNESS, inc))
        files = closure(roots, tree)
        ccs = sorted(f for f in files if f.endswith(".cc") and not f.endswith("_test.cc"))
        protos = sorted(f for f in files if f.endswith(".proto"))
        protos_all |= set(protos)
        plans.append((prop, variant, h, harness_srcs, ccs, protos))
    pbh = " ".join(sorted("%s/%s.pb.h" % (gen, p[:-6]) for p in protos_all))
    for p in sorted(protos_all):
        b = "%s/%s.pb" % (gen, p[:-6])
        imports = " ".join(os.path.join(REPO, x) for x in sorted(protos_all - {p}))
        out.append("build %s.h %s.cc: protoc %s | %s\n  src = %s\n" % (b, b, os.path.join(REPO, p), imports, p))
    for prop, variant, h, hs, ccs, protos in plans:
        vdir = os.path.join(BUILD, variant)
        flags = "%s %s -I%s -I%s -I%s -I%s/stub" % (BASEFLAGS, VARIANTS[variant], REPO, gen, HARNESS, HARNESS)
        objs = []
        for s in [os.path.join(REPO, x) for x in ccs] + ["%s/%s.pb.cc" % (gen, x[:-6]) for x in protos] + hs:
            rel = s[len(gen) + 1:] if s.startswith(gen) else \
                os.path.relpath(s, REPO) if s.startswith(REPO + "/") else "harness/" + os.path.relpath(s, HARNESS)
            o = os.path.join(vdir, "obj", rel + ".o")
            objs.append(o)
            if o not in done:
                done.add(o)
                out.append("build %s: cxx %s || %s\n  flags = %s\n" % (o, s, pbh, flags))
        b = os.path.join(vdir, "bin", prop)
        bins[(prop, variant)] = b
        link = VARIANTS[variant].replace("fuzzer-no-link", "fuzzer")
        out.append("build %s: link %s\n  flags = %s\n  libs = %s %s\n" % (b, " ".join(objs), link, LIBS, h.get("libs", "")))
    # One ninja file per set of programs, one log directory: deps are shared.
    nf = os.path.join(BUILD, "build-%s.ninja" % ("all" if len(progs) > 2 else "-".join("%s.%s" % p for p in progs)))
    write(nf, "".join(out))
    r = subprocess.run(["ninja", "-f", nf, "-j8"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-8000:])
        print("ERROR: the program could not be built from %s" % REPO, file=sys.stderr)
        sys.exit(3)
    return bins


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:symbolize=1:"
           "max_malloc_fill_size=1048576:malloc_fill_byte=255",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
           TSAN_OPTIONS="halt_on_error=1:report_signal_unsafe=0:exitcode=66")


def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("known", []) if k["property"] == prop]


def variants_of(prop):
    return header(program_file(prop)).get("variants", "asan").split()


def check(prop, tier, seed, extra=()):
    t0 = time.time()
    variants = variants_of(prop)
    bins = build([(prop, v) for v in variants])
    built = time.time() - t0
    evaluations = distinct = 0
    fns, samples, failure, rule, assumptions = [], [], None, "", []
    def explore(v, seed):
        scratch = os.path.join(BUILD, "scratch", "%s-%s-%d" % (prop, v, os.getpid()))
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        out = os.path.join(scratch, "result.json")
        env = dict(ENV, PBT_SCRATCH=scratch, PBT_VARIANT=v, TMPDIR=scratch, HOME=scratch, TEST_TMPDIR=scratch)
        cmd = [bins[(prop, v)], "--tier", tier, "--seed", str(seed), "--out", out, "--scratch", scratch, *extra]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        res = None
        if r.returncode in (0, 1) and os.path.exists(out):
            res = json.load(open(out))
        else:
            sys.stderr.write(r.stdout[-3000:] + r.stderr[-5000:])
            print("note: the program for %s ended with status %s" % (prop, r.returncode), file=sys.stderr)
        shutil.rmtree(scratch, ignore_errors=True)
        return res

    for v in variants:
        # An event that cannot be reproduced (a machine too busy, say) decides nothing: explore again with another seed.
        # Three wrong results in a row do: they depend on what the process did before, or on memory that was never set.
        events = []
        for attempt in range(3):
            used = seed + 1000003 * attempt
            res = explore(v, used)
            if res is not None and not (res.get("failure") and not res["failure"]["report"]):
                break
            if res is not None:
                print("note: an unreproducible event in %s was discarded: %s" % (
                    res["failure"]["fn"], res["failure"]["first_message"][:500]), file=sys.stderr)
                events.append(res["failure"])
        if len(events) == 3 and all(e["kind"] != "hang" for e in events):
            res["failure"].update(report=True, explore=dict(tier=tier, seed=used, extra=extra))
        if res is None:
            print("ERROR: the program for %s does not run" % prop, file=sys.stderr)
            sys.exit(4)
        rule, assumptions = res["rule"], res["assumptions"]
        evaluations += res["evaluations"]
        distinct += res["distinct_nontrivial"]
        for f in res["fns"]:
            s = f.pop("sample")
            if s:
                samples.append({"check": f["name"], "case": s})
            fns.append(dict(f, build=v))
        if res.get("failure"):
            failure = dict(res["failure"], build=v)
            break
    violations = 0
    replay = None
    if failure:
        if failure["report"]:
            violations = 1
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, "%s-%s.json" % (prop, failure["fn"]))
            with open(replay, "w") as f:
                json.dump(dict(property=prop, **failure), f, indent=1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(dict(
            property=prop, tier=tier, seed=seed, level="exploration",
            coverage=dict(evaluations=evaluations, distinct_nontrivial=distinct, rule=rule,
                          samples=samples[:12], per_check=fns, build_s=round(built, 1)),
            assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=violations), f, indent=1)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations:
        print("failing check: %s (%s build)\n%s\n%s" % (failure["fn"], failure["build"], failure["notes"], failure["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if failure:
        return 5  # explored too little and could not confirm: an error of the check
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d build_s=%.0f wall_s=%.0f" % (
        prop, tier, seed, evaluations, distinct, built, time.time() - t0))
    return 0


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--setup", action="store_true")
    p.add_argument("--replay")
    p.add_argument("--only")
    p.add_argument("--scale")
    a = p.parse_args()
    if a.setup:
        build([(x, v) for x in all_props() for v in variants_of(x)])
        print("built %d programs" % len(all_props()))
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        v = r.get("build", "asan")
        b = build([(r["property"], v)])[(r["property"], v)]
        scratch = os.path.join(BUILD, "scratch", "replay-%d" % os.getpid())
        os.makedirs(scratch, exist_ok=True)
        env = dict(ENV, PBT_SCRATCH=scratch, PBT_VARIANT=v, TMPDIR=scratch, HOME=scratch, TEST_TMPDIR=scratch)
        if "explore" in r:  # Only fails after what was explored before it
            x = r["explore"]
            out = os.path.join(scratch, "result.json")
            subprocess.run([b, "--tier", x["tier"], "--seed", str(x["seed"]), "--out", out, "--scratch", scratch, *x["extra"]], env=env)
            failure = json.load(open(out)).get("failure")
            shutil.rmtree(scratch, ignore_errors=True)
            print("REPLAY-FAILS %s %s" % (failure["fn"], failure["first_message"]) if failure else "REPLAY-PASSES")
            return 1 if failure else 0
        rc = subprocess.run([b, "--replay", os.path.abspath(a.replay), "--scratch", scratch], env=env).returncode
        shutil.rmtree(scratch, ignore_errors=True)
        return rc
    extra = []
    if a.only:
        extra += ["--only", a.only]
    scale = a.scale or (header(program_file(a.property)).get("quick_scale") if a.tier == "quick" else None)
    if scale:
        extra += ["--scale", scale]
    return check(a.property, a.tier, a.seed, extra)


if __name__ == "__main__":
    sys.exit(main())
