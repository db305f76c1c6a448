#!/usr/bin/env python3
"""Builds the simulator: /repo's library sources, instrumented, + the simulator.

usage: build.py [-o OUTDIR] [TARGET...]   (REPO from env SIM_REPO, default /repo)

Every library source named in /repo/CMakeLists.txt is compiled, from the working
tree, with gcc's ThreadSanitizer instrumentation pass; each program is linked
against our own runtime (sim/rt) instead of the TSan one, so that every memory
access and atomic operation of the library calls into the simulator.

The working tree is first mirrored into OUTDIR/src.  A mirrored file is replaced
when its code differs; a difference in comments or blanks alone recompiles
nothing.
"""
import os, re, subprocess, sys, pathlib, shutil, fcntl, hashlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("SIM_REPO", "/repo"))
# program -> parts of the library it links
TARGETS = {
    "util": ["=SeQuant/core/runtime.cpp", "=SeQuant/core/utility/macros.cpp"],  # falls back to core's
    "core": ["symb", "bliss"],
    "eval": ["symb", "bliss", "eval", "optimize", "export"],
    "mbpt": ["symb", "bliss", "eval", "optimize", "export", "mbpt"],
}
TOK = re.compile(r"""R"([^()\\\s]{0,16})\(.*?\)\1"|"(?:\\.|[^"\\\n])*"|(?<![0-9A-Za-z_])'(?:\\.|[^'\\\n])+'|//(?:\\\n|[^\n])*|/\*.*?\*/|[ \t\r\f\v]+|\n""", re.S)


def norm(text):
    """text without comments and redundant blanks (line structure kept)"""
    def f(m):
        t = m.group(0)
        if t[0] in " \t\r\f\v":
            return " "
        if t.startswith("//"):
            return ""
        if t.startswith("/*"):
            return " "
        return t
    out = TOK.sub(f, text)
    return "\n".join(x for x in (re.sub(r"[ \t]+", " ", l).strip() if '"' not in l else l.strip() for l in out.split("\n")) if x)


def mirror(out):
    dst = out / "src"
    want = {}
    for p in [REPO / "CMakeLists.txt", *(REPO / "SeQuant").rglob("*")]:
        if p.is_file() and (p.suffix in (".hpp", ".cpp", ".h", ".hh", ".cc", ".ipp", ".in", ".txt", ".gz", ".cxx", ".inl", ".c", ".def", ".inc")):
            want[p.relative_to(REPO)] = p
    for rel, p in want.items():
        d = dst / rel
        new = p.read_bytes()
        if d.exists():
            old = d.read_bytes()
            if old == new:
                continue
            if rel.suffix not in (".gz", ".in", ".txt"):
                try:
                    if norm(old.decode()) == norm(new.decode()):
                        continue
                except UnicodeDecodeError:
                    pass
        d.parent.mkdir(parents=True, exist_ok=True)
        d.write_bytes(new)
    for d in list(dst.rglob("*")):
        if d.is_file() and d.relative_to(dst) not in want:
            d.unlink()
    return dst


def sources(src):
    text = (src / "CMakeLists.txt").read_text()
    out = {}
    for part in ["symb", "eval", "optimize", "export", "mbpt"]:
        m = re.search(r"set\(SeQuant_%s_src([^)]*)\)" % part, text)
        if not m:
            raise SystemExit(f"no SeQuant_{part}_src in CMakeLists.txt")
        out[part] = [f for f in dict.fromkeys(m.group(1).split()) if re.fullmatch(r"SeQuant/\S+\.(cpp|cc)", f) and (src / f).exists()]
    out["bliss"] = [f for f in sorted(set(re.findall(r"SeQuant/external/bliss/\w+\.cc", text))) if (src / f).exists()]
    return out


def version_header(src, inc):
    text = (src / "CMakeLists.txt").read_text()
    v = {}
    for part in ["MAJOR", "MINOR", "MICRO"]:
        m = re.search(r"set\(SEQUANT_%s_VERSION ([0-9]+)\)" % part, text)
        v[f"SEQUANT_{part}_VERSION"] = m.group(1) if m else "0"
    v["SEQUANT_VERSION"] = ".".join(v[f"SEQUANT_{p}_VERSION"] for p in ["MAJOR", "MINOR", "MICRO"])
    m = re.search(r"set\(SEQUANT_PRERELEASE_ID ([a-z0-9]+)\)", text)
    v["SEQUANT_PRERELEASE_ID"] = m.group(1) if m else ""
    t = (src / "SeQuant/version.hpp.in").read_text()
    t = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda m: v.get(m.group(1) or m.group(2), ""), t)
    t = re.sub(r"(?m)^#cmakedefine .*$", "", t)
    write_if_changed(inc / "SeQuant/version.hpp", t)


def write_if_changed(p, t):
    p.parent.mkdir(parents=True, exist_ok=True)
    if not p.exists() or p.read_text() != t:
        p.write_text(t)


def build(out, targets):
    out.mkdir(parents=True, exist_ok=True)
    lock = open(out / ".lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    inc = out / "inc"
    src = mirror(out)
    version_header(src, inc)
    if not (inc / "SeQuant/external/boost").exists():
        ext = inc / "SeQuant/external"
        ext.mkdir(parents=True, exist_ok=True)
        tmp = ext / "tmp"
        tmp.mkdir(exist_ok=True)
        subprocess.run(["tar", "xzf", str(src / "SeQuant/external/boost.tar.gz"), "-C", str(tmp)], check=True)
        (tmp / "boost").rename(ext / "boost")
    defs = ("-DSEQUANT_ASSERT_BEHAVIOR_=THROW -DSEQUANT_ASSERT_ENABLED "
            "-DSEQUANT_CONTEXT_MANIPULATION_THREADSAFE -DNDEBUG -DSEQUANT_GIT_REVISION='\"sim\"' "
            "-DSEQUANT_GIT_DESCRIPTION='\"sim\"'")
    incs = f"-I{VERIF}/sim/shim -I{VERIF}/sim -I{src} -isystem {inc} -isystem /usr/include/eigen3"
    cc = "g++ -std=c++20 -w -fno-pie -g1 -fmax-errors=3"
    inst = "-fsanitize=thread --param tsan-instrument-func-entry-exit=0"
    write_if_changed(out / "pch.hpp", "#error precompiled header not used\n")
    lines = [
        "ninja_required_version = 1.3",
        f"cxx = {cc} -O1 {inst} {defs} {incs}",
        f"rtcxx = g++ -std=c++20 -Wall -O2 -g1 -fno-pie -fno-omit-frame-pointer -I{VERIF}/sim/rt -I{VERIF}/sim",
        "rule pch",
        "  command = $cxx -x c++-header $in -o $out -MD -MF $out.d",
        "  depfile = $out.d", "  deps = gcc",
        "rule cxx",
        "  command = $cxx -Winvalid-pch -include pch.hpp -c $in -o $out -MD -MF $out.d",
        "  depfile = $out.d", "  deps = gcc",
        "rule raw",
        "  command = $cxx -c $in -o $out -MD -MF $out.d",
        "  depfile = $out.d", "  deps = gcc",
        "rule rt",
        "  command = $rtcxx -c $in -o $out -MD -MF $out.d",
        "  depfile = $out.d", "  deps = gcc",
        "rule link",
        "  command = g++ -no-pie -rdynamic -o $out $in -lboost_locale -lboost_regex -lboost_random -lboost_container -lpthread -ldl",
        f"build pch.hpp.gch: pch {VERIF}/sim/pch.hpp",
    ]
    done = {}

    def add(rule, f, obj):
        if obj not in done:
            dep = " | pch.hpp.gch" if rule == "cxx" else ""
            lines.append(f"build {obj}: {rule} {f}{dep}")
            done[obj] = 1
        return obj

    srcs = sources(src)
    heavy = ["wick.cpp", "mbpt/op.cpp", "mbpt/spin.cpp", "optimize.cpp", "biorth", "cc.cpp", "sum.cpp", "deserialize"]
    for tgt, parts in TARGETS.items():
        objs = []
        for h in sorted((VERIF / "sim/harness" / tgt).glob("*.cpp")):
            objs.append(add("cxx", h, f"h/{tgt}_{h.stem}.o"))
        if not objs:
            continue
        fs = [f for p in parts for f in (srcs[p] if p[0] != "=" else [p[1:]] if (src / p[1:]).exists() else [])]
        for s in sorted(fs, key=lambda s: min([i for i, h in enumerate(heavy) if h in s] + [99])):
            objs.append(add("raw" if s.endswith(".cc") else "cxx", src / s, "o/" + s.replace("/", "_") + ".o"))
        for r in sorted((VERIF / "sim/rt").glob("*.cpp")):
            objs.append(add("rt", r, f"rt/{r.stem}.o"))
        if tgt != "util":
            for r in sorted((VERIF / "sim/plain").glob("*.cpp")):
                objs.append(add("rt", r, f"rt/plain_{r.stem}.o"))
        lines.append(f"build sim_{tgt}: link " + " ".join(objs))
    write_if_changed(out / "build.ninja", "\n".join(lines) + "\n")
    env = dict(os.environ, LC_ALL="C.UTF-8")
    r = subprocess.run(["ninja", "-C", str(out)] + (["-j", os.environ["SIM_JOBS"]] if os.environ.get("SIM_JOBS") else []) + (["-v"] if os.environ.get("SIM_VERBOSE") else []) + [f"sim_{t}" for t in targets],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and "util" in targets and TARGETS["util"] != TARGETS["core"] and "ld returned" in r.stdout:
        TARGETS["util"] = TARGETS["core"]
        lock.close()
        return build(out, targets)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:] + "\n")
        raise SystemExit(2)
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    out = pathlib.Path(os.environ.get("SIM_BUILD", VERIF / "build"))
    if a[:1] == ["-o"]:
        out = pathlib.Path(a[1])
        a = a[2:]
    if not a:
        a = [t for t in TARGETS if list((VERIF / "sim/harness" / t).glob("*.cpp"))]
    print(build(out.resolve(), a))
