#!/usr/bin/env python3
"""Build the check binaries from /repo's current working tree.

build.py [--variant rt|san] target...   (targets: names of checks/<name>.cc, or 'all')

/repo/src and the vendored libraries are mirrored (by content, so timestamps in
/repo do not matter) into _build/mirror and compiled there; ninja and ccache
make it incremental.  Exit 0 = built, 2 = could not build.
"""
import fcntl, hashlib, os, subprocess, sys, time, json

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "_build")
M = os.path.join(B, "mirror")
LIBS = ["fmt", "CLI", "json", "EngFormat-Cpp", "yaml-cpp", "brotli", "libfort"]

INC = [f"{V}/shim/config", f"{V}/shim/magistrate", f"{V}/shim/mpi", f"{V}/sim", f"{V}/pbt",
       f"{M}/src", f"{M}/lib/fmt/include", f"{M}/lib/CLI", f"{M}/lib/json/include",
       f"{M}/lib/EngFormat-Cpp/include", f"{M}/lib/yaml-cpp/include",
       f"{M}/lib/brotli/c/include", f"{M}/lib/libfort/lib"]

COMMON = "-std=c++17 -w -g0 -pipe -include thread -DVT_VERIF=1"
VARIANTS = {
    "rt": dict(cxx="g++", cc="gcc", flags="-O1", ld=""),
    "san": dict(cxx="g++", cc="gcc",
                flags="-O1 -ffunction-sections -fdata-sections -fno-pie -fsanitize=address,undefined -fno-sanitize-recover=undefined "
                      "-fno-sanitize=vptr,alignment,shift,null -fno-omit-frame-pointer",
                ld="-fsanitize=address,undefined"),
}

# relative compile cost of the expensive translation units (default 1)
HEAVY = json.load(open(f"{V}/tools/weights.json")) if os.path.exists(f"{V}/tools/weights.json") else {}


def sh(*a, **k):
    return subprocess.run(a, check=True, **k)


def mirror():
    os.makedirs(f"{M}/lib", exist_ok=True)
    base = ["rsync", "-rl", "--checksum", "--delete", "--delete-excluded"]
    sh(*base, f"{REPO}/src/", f"{M}/src/")
    ex = ["--exclude=test", "--exclude=tests", "--exclude=doc", "--exclude=docs", "--exclude=.git",
          "--exclude=java", "--exclude=python", "--exclude=go", "--exclude=js", "--exclude=research"]
    sh(*base, *ex, *[f"{REPO}/lib/{l}" for l in LIBS], f"{M}/lib/")
    ver = open(f"{REPO}/CMakeLists.txt").read()
    g = f"{B}/gen"
    os.makedirs(g, exist_ok=True)
    src = open(f"{REPO}/vt_git_revision.cc.in").read()
    import re
    src = re.sub(r"@([A-Za-z_]*)@", lambda m: {"PROJECT_VERSION_MAJOR": "1", "PROJECT_VERSION_MINOR": "6",
                                               "PROJECT_VERSION_PATCH": "0"}.get(m.group(1), "0"), src)
    put(f"{g}/vt_git_revision.cc", src)


def put(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)


def third_party():
    out = []
    for d, _, fs in os.walk(f"{M}/lib/yaml-cpp/src"):
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    for s in ("common", "dec", "enc"):
        d = f"{M}/lib/brotli/c/{s}"
        out += [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c")]
    out.append(f"{M}/lib/fmt/src/format.cc")
    out.append(f"{M}/lib/EngFormat-Cpp/src/eng_format.cpp")
    return sorted(out)


def vt_sources():
    out = []
    for d, _, fs in os.walk(f"{M}/src/vt"):
        out += [os.path.relpath(os.path.join(d, f), f"{M}/src") for f in fs if f.endswith(".cc")]
    return sorted(out)


def chunks(single):
    """Groups of sources compiled together (the vt build has a unity mode too)."""
    src = vt_sources()
    groups, cur, w = [], [], 0.0
    last = None
    for s in src:
        c = HEAVY.get(s, 1)
        d = s.split("/")[1]
        if cur and w + c > 9:
            groups.append(cur); cur, w = [], 0.0
        cur.append(s); w += c
    if cur:
        groups.append(cur)
    out = []
    for g in groups:
        name = "u_" + hashlib.sha1(" ".join(g).encode()).hexdigest()[:10]
        if name in single or len(g) == 1:
            for s in g:
                out.append(("s_" + s.replace("/", "_")[:-3], [s]))
        else:
            out.append((name, g))
    return out


def checks():
    """Per check: '// variant: rt|san' and optional '// sources: vt/a.cc ...' header lines.

    With sources, only those files (and the third-party library) are linked."""
    d = f"{V}/checks"
    out = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".cc"):
            c = dict(variant="rt", sources=[], defs="")
            for line in open(f"{d}/{f}").read().splitlines()[:20]:
                if line.startswith("// variant:"):
                    c["variant"] = line.split(":")[1].strip()
                if line.startswith("// sources:"):
                    c["sources"] += line.split(":")[1].split()
            out[f[:-3]] = c
    return out


def gen(single):
    L = ["ninja_required_version = 1.8", f"builddir = {B}"]
    inc = " ".join("-I" + i for i in INC)
    fmtdef = "-DFMT_HEADER_ONLY=0 -DFMT_USE_USER_DEFINED_LITERALS=0"
    for v, c in VARIANTS.items():
        L += [f"rule cxx_{v}", f"  command = ccache {c['cxx']} {COMMON} {fmtdef} {c['flags']} {inc} -MD -MF $out.d -c $in -o $out",
              "  depfile = $out.d", "  deps = gcc", "  description = cxx $out",
              # the checks of the rt variant are large and spend their time in the library: compile them fast
              f"rule chk_{v}", f"  command = ccache {'clang++' if v == 'rt' else c['cxx']} {COMMON} {fmtdef} {'-O0' if v == 'rt' else c['flags']} {inc} -MD -MF $out.d -c $in -o $out",
              "  depfile = $out.d", "  deps = gcc", "  description = cxx $out",
              f"rule cc_{v}", f"  command = ccache {c['cc']} -w -g0 {c['flags']} -I{M}/lib/brotli/c/include -c $in -o $out",
              "  description = cc $out",
              f"rule link_{v}", f"  command = {c['cxx']} $in -o $out {c['ld']} -ldl -lpthread -lz -rdynamic",
              "  description = link $out",
              f"rule linkp_{v}", f"  command = {c['cxx']} $in -o $out {c['ld']} -ldl -lpthread -lz -no-pie -Wl,--gc-sections 2> $out.err || "
              # code moved between files may need more than the listed sources; what is missing is then only missed if called
              f"(cat $out.err; {c['cxx']} $in -o $out {c['ld']} -ldl -lpthread -lz -no-pie -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all)",
              "  description = link $out"]
    L += ["rule ar", "  command = rm -f $out && ar crs $out $in", "  description = ar $out"]
    ck = checks()
    for v in VARIANTS:
        o = f"{B}/{v}"
        third = []
        for s in third_party():
            obj = f"{o}/3p/{os.path.relpath(s, M).replace('/', '_')}.o"
            L.append(f"build {obj}: {'cc' if s.endswith('.c') else 'cxx'}_{v} {s}")
            third.append(obj)
        L.append(f"build {o}/lib3p.a: ar {' '.join(third)}")
        objs = []
        for name, g in chunks(single):
            u = f"{B}/gen/{name}.cc"
            put(u, "".join(f'#include "{s}"\n' for s in g))
            L.append(f"build {o}/vt/{name}.o: cxx_{v} {u}")
            objs.append(f"{o}/vt/{name}.o")
        for extra in (f"{B}/gen/vt_git_revision.cc",):
            L.append(f"build {o}/vt/{os.path.basename(extra)}.o: cxx_{v} {extra}")
            objs.append(f"{o}/vt/{os.path.basename(extra)}.o")
        L.append(f"build {o}/libvt.a: ar {' '.join(objs)}")
        sup = []
        for s in (f"{V}/sim/simmpi.cc", f"{V}/pbt/pbt.cc"):
            obj = f"{o}/sup/{os.path.basename(s)}.o"
            L.append(f"build {obj}: cxx_{v} {s}")
            sup.append(obj)
        ones = set()
        for name, c in ck.items():
            if c["variant"] != v:
                continue
            L.append(f"build {o}/chk/{name}.o: chk_{v} {V}/checks/{name}.cc")
            if c["sources"]:
                parts = []
                for src in c["sources"]:
                    obj = f"{o}/one/{src.replace('/', '_')[:-3]}.o"
                    parts.append(obj)
                    if src not in ones:
                        ones.add(src)
                        L.append(f"build {obj}: cxx_{v} {M}/src/{src}")
                L.append(f"build {o}/bin/{name}: linkp_{v} {o}/chk/{name}.o {' '.join(parts)} {o}/sup/pbt.cc.o {o}/lib3p.a")
            else:
                L.append(f"build {o}/bin/{name}: link_{v} {o}/chk/{name}.o {' '.join(sup)} {o}/libvt.a {o}/lib3p.a")
            L.append(f"build {name}: phony {o}/bin/{name}")
    L.append("build all: phony " + " ".join(ck))
    put(f"{B}/build.ninja", "\n".join(L) + "\n")


def build(targets, quiet=True):
    os.makedirs(B, exist_ok=True)
    lock = open(f"{B}/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    mirror()
    env = dict(os.environ, CCACHE_DIR=f"{B}/ccache", CCACHE_MAXSIZE="3G",
               CCACHE_SLOPPINESS="pch_defines,time_macros", LC_ALL="C")
    sf = f"{B}/single.json"
    single = set()
    for attempt in range(3):
        gen(single)
        r = subprocess.run(["ninja", "-C", B, "-k", "0", *targets], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0:
            n = sum("undefined reference" in line for line in r.stdout.splitlines())
            if n:
                print(f"note: {n} references into the rest of the runtime are left open", file=sys.stderr)
            print(f"build: {', '.join(targets)} in {time.time() - t0:.1f} s", file=sys.stderr)
            return True
        # a unity chunk that does not compile is retried file by file
        bad = set()
        for line in r.stdout.splitlines():
            if line.startswith("FAILED:"):
                n = os.path.basename(line.split()[-1]).split(".")[0]
                if n.startswith("u_"):
                    bad.add(n)
        if not bad - single:
            break
        single |= bad
    print(r.stdout[-6000:], file=sys.stderr)
    return False


if __name__ == "__main__":
    a = sys.argv[1:] or ["all"]
    sys.exit(0 if build(a) else 2)
