#!/usr/bin/env python3
"""Builds /repo's working tree out of tree into /verif/build/<variant> with monitoring hooks on.

usage: vbuild.py VARIANT [PROGRAM ...]      (VARIANT: plain | asan | rasan | tsan)
Prints nothing on success; exits 3 with the compiler output if the build fails."""
import fcntl, glob, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CXX = "clang++-18"
COMMON = ("-std=gnu++17 -fno-rtti -fPIC -w -DTIRO_BUILDING_LIBRARY -DTIRO_VP_HOOKS=1 "
          "-fno-omit-frame-pointer")
SAN = ("-fsanitize=address,undefined,float-cast-overflow -fno-sanitize=vptr,function "
       "-fno-sanitize-recover=all")
DEBUG, RELEASE = "-DTIRO_DEBUG=1 ", "-DNDEBUG "
# variant -> (flags for vm/api/common/bytecode, flags for the compiler, link flags)
VARIANTS = {
    "plain": (DEBUG + "-O1 -g0", DEBUG + "-O0 -g0", ""),
    "asan": (DEBUG + "-O1 -gline-tables-only " + SAN, DEBUG + "-O0 -gline-tables-only " + SAN, SAN),
    # without the assertions of debug builds, which turn some errors into exceptions
    "rasan": (RELEASE + "-O1 -gline-tables-only " + SAN, RELEASE + "-O0 -gline-tables-only " + SAN, SAN),
    "tsan": (DEBUG + "-O1 -gline-tables-only -fsanitize=thread",
             DEBUG + "-O0 -gline-tables-only -fsanitize=thread", "-fsanitize=thread"),
}
PCH = {
    "base": ["<optional>", "<type_traits>", "<vector>", "<string_view>", "<string>", "<utility>",
             "<algorithm>", "<memory>", "<new>", "<functional>", "<unordered_map>", "<map>",
             "<variant>", "<cmath>", "<ostream>", "<sstream>", "<array>", "<exception>", "<tuple>",
             "<fmt/format.h>", "<absl/container/flat_hash_map.h>", "<absl/container/flat_hash_set.h>",
             "<absl/container/inlined_vector.h>", "<absl/hash/hash.h>"],
}
PCH["comp"] = PCH["base"] + ['"common/defs.hpp"', '"common/format.hpp"', '"common/error.hpp"',
    '"common/adt/span.hpp"', '"common/text/string_table.hpp"', '"compiler/ir/function.hpp"',
    '"compiler/ast/ast.hpp"', '"compiler/syntax/syntax_tree.hpp"',
    '"compiler/semantics/symbol_table.hpp"', '"bytecode/module.hpp"']
PCH["vm"] = PCH["base"] + ['"common/defs.hpp"', '"common/format.hpp"', '"common/error.hpp"',
    '"common/adt/span.hpp"', '"vm/context.hpp"', '"vm/math.hpp"', '"vm/objects/all.hpp"']


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def version_header():
    t = open(f"{REPO}/include/tiro/version.h.in").read()
    cm = open(f"{REPO}/CMakeLists.txt").read()
    m = re.search(r"tiro_apply_version\((\d+) (\d+) (\d+) \"([^\"]*)\"\)", cm)
    ma, mi, pa, suf = m.groups() if m else ("0", "1", "0", "-dev")
    full = f"{ma}.{mi}.{pa}{suf}"
    sub = {"PROJECT_VERSION_MAJOR": ma, "PROJECT_VERSION_MINOR": mi, "PROJECT_VERSION_PATCH": pa,
           "PROJECT_VERSION": f"{ma}.{mi}.{pa}", "SOURCE_ID": "git:verif",
           "PROJECT_VERSION_FULL": full, "FULL_VERSION": full}
    return re.sub(r"@(\w+)@", lambda k: sub.get(k.group(1), full), t)


def build(variant, programs=("tdrv",), quiet=True):
    base = f"{VERIF}/build"
    out = f"{base}/{variant}"
    os.makedirs(out, exist_ok=True)
    lock = open(f"{base}/.lock.{variant}", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    inc = f"{base}/include.{variant}"
    write_if_changed(f"{inc}/tiro/version.h", version_header())
    # clang insists on const formatters in fmt::join where gcc is let off with -fpermissive.
    fmt_h = open("/usr/include/fmt/format.h").read()
    fmt_h = fmt_h.replace("  formatter_type value_formatter_;", "  mutable formatter_type value_formatter_;")
    for h in glob.glob("/usr/include/fmt/*.h"):
        write_if_changed(f"{inc}/fmt/{os.path.basename(h)}",
                         fmt_h if h.endswith("/format.h") else open(h).read())
    # the name cxxopts 2 used for the exception (as /opt/vp/deps does)
    write_if_changed(f"{inc}/cxxopts.hpp", "#pragma once\n#include_next <cxxopts.hpp>\n"
                     "namespace cxxopts { using OptionException = exceptions::exception; }\n")
    for n, hs in PCH.items():
        lines = []
        for h in hs:
            lines.append(f"#if __has_include({h})\n#include {h}\n#endif")
        write_if_changed(f"{inc}/vp_pch_{n}.hpp", "\n".join(lines) + "\n")
    vmf, compf, linkf = VARIANTS[variant]
    incs = f"-I{inc} -I{REPO}/src -I{REPO}/include -I{VERIF}/driver"
    w = []
    for kind, fl in (("vm", vmf), ("comp", compf), ("base", vmf)):
        f = f"{CXX} {COMMON} {fl} {incs}"
        w.append(f"rule pch_{kind}\n  command = {f} -x c++-header $in -o $out -MMD -MF $out.d\n"
                 f"  depfile = $out.d\n  deps = gcc\n")
        w.append(f"rule cc_{kind}\n  command = {f} -include-pch {out}/{kind}.pch -c $in -o $out -MMD -MF $out.d\n"
                 f"  depfile = $out.d\n  deps = gcc\n")
        w.append(f"build {out}/{kind}.pch: pch_{kind} {inc}/vp_pch_{kind}.hpp\n")
    absl = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a"))
    w.append(f"rule drv\n  command = {CXX} {COMMON} {vmf} {incs} -c $in -o $out -MMD -MF $out.d\n"
             f"  depfile = $out.d\n  deps = gcc\n")
    w.append(f"rule drvx\n  command = {CXX} {COMMON} {vmf} -frtti -fexceptions {incs} -c $in -o $out -MMD -MF $out.d\n"
             f"  depfile = $out.d\n  deps = gcc\n")
    w.append(f"rule link\n  command = {CXX} {linkf} $in -o $out -Wl,--start-group {' '.join(absl)} -Wl,--end-group "
             f"-lfmt -lpthread -latomic\n")
    w.append("rule ar\n  command = rm -f $out && ar crs $out $in\n")
    objs = []
    for s in sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True)):
        rel = os.path.relpath(s, f"{REPO}/src")
        top = rel.split("/")[0]
        if top == "run":
            continue
        kind = "comp" if top == "compiler" else "vm" if top in ("vm", "api") else "base"
        o = f"{out}/{rel[:-4].replace('/', '.')}.o"
        objs.append(o)
        w.append(f"build {o}: cc_{kind} {s} | {out}/{kind}.pch\n")
    w.append(f"build {out}/libtiro.a: ar {' '.join(objs)}\n")
    for p in sorted(glob.glob(f"{VERIF}/driver/*.cpp")):
        n = os.path.basename(p)[:-4]
        if n == "hooks":
            w.append(f"build {out}/{n}.o: drv {p}\n")
            continue
        w.append(f"build {out}/{n}.o: drv {p}\n")
        w.append(f"build {out}/{n}: link {out}/{n}.o {out}/hooks.o {out}/libtiro.a\n")
    w.append(f"build {out}/run_main.o: drvx {REPO}/src/run/main.cpp\n")
    w.append(f"build {out}/tiro_run: link {out}/run_main.o {out}/hooks.o {out}/libtiro.a\n")
    write_if_changed(f"{out}/build.ninja", "".join(w))
    targets = [f"{out}/{p}" for p in programs]
    r = subprocess.run(["ninja", "-C", out, *targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        keep = [l[:300] for l in r.stdout.splitlines() if not re.match(r"^(\[\d+/\d+\]|clang\+\+)", l)]
        sys.stderr.write("\n".join(keep[:60]))
        sys.stderr.write(f"\nBUILD FAILED ({variant})\n")
        sys.exit(3)
    return {p: f"{out}/{p}" for p in programs}


if __name__ == "__main__":
    build(sys.argv[1], sys.argv[2:] or ("tdrv",))
