#!/usr/bin/env python3
"""Builds the library under /repo (working tree) with sanitizers, and one harness per property,
into an out-of-tree directory.  Uses ninja for incremental, parallel builds."""
import os, re, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

LIB_COMMON = ["-O2", "-g1", "-DNDEBUG", "-mavx2", "-fno-omit-frame-pointer", "-DJSMN_PARENT_LINKS=1",
              "-DNX_ENABLE_JLOG=1", "-w", "-fexceptions",
              "-fsanitize=address,bounds,integer-divide-by-zero,vla-bound,return",
              "-fno-sanitize-recover=all"]
HAR = ["-O1", "-g1", "-mavx2", "-fno-omit-frame-pointer", "-w", "-std=gnu++17", "-DNX_ENABLE_JLOG=1",
       "-fsanitize=address", "-fno-sanitize-recover=all"]
# command-line tools that a harness runs, and objects of tools that a harness links
TOOLS = {"nx-harris-detector": ["nx_harris_detector_main.c"], "nx-sift-detector": ["nx_sift_detector_main.c"],
         "nx-fit-homography": ["nx_fit_homography_main.c"], "nx-sift-benchmark": ["nx_sift_benchmark_main.c"]}
NEEDS = {"C40": list(TOOLS)}
OBJECTS = {"C41": ["tool_nx_panorama_builder.c.o"]}
LIBS = ["-lpng", "-ljpeg", "-llapack", "-lcblas", "-lcairo", "-lz", "-lm", "-lpthread"]


def sources():
    """Library sources, from the lists in /repo/CMakeLists.txt (OpenGL sources are built for C42 only)."""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    srcs = []
    for var in ("virg_nexus_C_SOURCES", "virg_nexus_CXX_SOURCES"):
        m = re.search(r"set\(\s*%s\b(.*?)\)" % var, txt, re.S)
        if m:
            srcs += re.findall(r"\S+\.(?:c|cc|cpp)\b", m.group(1))
    if len(srcs) < 20:  # lists renamed: take every library source
        srcs = []
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in fs:
                if f.endswith((".c", ".cc")) and "/GL" not in d and f != "nx_vector_gen.c":
                    srcs.append(os.path.relpath(os.path.join(d, f), REPO))
    return [s for s in dict.fromkeys(srcs) if "/GL/" not in s]


def gen_config():
    """nx_config.h as CMake generates it, from /repo's template."""
    t = open(os.path.join(REPO, "include/virg/nexus/nx_config.h.in")).read()
    vals = {"VIRG_NEXUS_SIMD_ALIGNMENT": "64", "VERSION_MAJOR": "0", "VERSION_MINOR": "1"}
    t = re.sub(r"#cmakedefine01\s+(\w+)", r"#define \1 1", t)
    t = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "0"), t)
    d = os.path.join(OUT, "include/virg/nexus")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "nx_config.h")
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)


def props():
    d = os.path.join(VERIF, "harness/props")
    return sorted(f[:-3] for f in os.listdir(d) if f.endswith(".cc"))


def write_ninja():
    os.makedirs(OUT, exist_ok=True)
    gen_config()
    inc = ["-I" + OUT + "/include", "-I" + REPO + "/include", "-I" + REPO + "/ext", "-I" + REPO + "/src",
           "-I/usr/include/cairo", "-I" + REPO + "/tools"]
    L = ["ninja_required_version = 1.5",
         "lflags = " + " ".join(LIB_COMMON + inc),
         "hflags = " + " ".join(HAR + inc + ["-I" + VERIF + "/harness"]),
         "rule cc", "  description = CC $out", "  command = gcc $lflags $extra -std=gnu11 -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule cxx", "  description = CXX $out", "  command = g++ $lflags -std=gnu++11 -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule hxx", "  description = CXX $out", "  command = g++ $hflags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ar", "  command = rm -f $out && ar crs $out $in",
         "rule link", "  command = g++ -fsanitize=address,undefined $in -o $out " + " ".join(LIBS) + " $more"]
    objs = []
    for s in sources():
        o = "lib/" + s.replace("/", "_") + ".o"
        objs.append(o)
        L.append("build %s: %s %s/%s" % (o, "cc" if s.endswith(".c") else "cxx", REPO, s))
        if s.endswith("fast_9.c"):
            L.append("  extra = -O0")  # generated decision tree: optimising it under ASan takes 30 s
    L.append("build libnexus.a: ar " + " ".join(objs))
    L.append("build core.o: hxx %s/harness/core.cc" % VERIF)
    tools = []
    for t, ss in TOOLS.items():
        os_ = []
        for x in ss:
            if os.path.exists(os.path.join(REPO, "tools", x)):
                o = "tool_" + x + ".o"
                os_.append(o)
                if o not in tools:
                    L.append("build %s: cc %s/tools/%s" % (o, REPO, x))
                    tools.append(o)
        L.append("build %s: link %s libnexus.a" % (t, " ".join(os_)))
    for o in sum(OBJECTS.values(), []):
        L.append("build %s: cc %s/tools/%s" % (o, REPO, o[5:-2]))
    gl = []
    d = os.path.join(REPO, "src/GL")
    for x in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if x.endswith((".c", ".cc")):
            o = "gl_" + x + ".o"
            gl.append(o)
            L.append("build %s: %s %s/%s" % (o, "cc" if x.endswith(".c") else "cxx", d, x))
    for p in props():
        L.append("build h_%s.o: hxx %s/harness/props/%s.cc" % (p, VERIF, p))
        pid = p.split("_")[0].upper()
        L.append("build bin_%s: link h_%s.o core.o %s libnexus.a" % (p, p, " ".join(OBJECTS.get(pid, []) + (gl if pid == "C42" else []))))
        if pid == "C42":  # OpenGL calls the stand-in does not know
            L.append("  more = -lGLESv2")
        L.append("build %s: phony bin_%s %s" % (pid, p, " ".join(NEEDS.get(pid, []))))
    txt = "\n".join(L) + "\n"
    f = os.path.join(OUT, "build.ninja")
    if not os.path.exists(f) or open(f).read() != txt:
        open(f, "w").write(txt)


def binary(pid):
    for p in props():
        if p.split("_")[0].upper() == pid:
            return os.path.join(OUT, "bin_" + p)
    return None


def build(targets):
    """Returns (ok, log)."""
    write_ninja()
    r = subprocess.run(["ninja", "-C", OUT] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


if __name__ == "__main__":
    t = sys.argv[1:]
    if t == ["--all"]:
        t = [p.split("_")[0].upper() for p in props()]
    ok, log = build(t)
    if not ok:
        i = log.find("FAILED")
        sys.stdout.write(log[max(i, 0):][:4000] + "\n")
    print("build ok" if ok else "build FAILED")
    sys.exit(0 if ok else 3)
