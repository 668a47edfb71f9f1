#!/usr/bin/env python3
"""Builds the instrumented harnesses from /repo's current working tree.

The sources of /repo (include/ and lib/) are mirrored, by content, in
build/src: a mirrored file gets a new time stamp exactly when its content
changes, so that the incremental build does not depend on time stamps in /repo.
"""
import os, sys, shutil, subprocess, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")
LLVM = "/usr/lib/llvm-20"
CXX = "/usr/bin/clang++"

COMMON = ("-std=gnu++17 -fPIC -fno-exceptions -fno-rtti -DMARCO_VERSION='\"dev\"' "
          "-D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "
          "-DVF_MONITOR -UNDEBUG -w -gline-tables-only -fno-omit-frame-pointer")
VARIANTS = {
    "asan": ("-O1 -fsanitize=address,undefined -fno-sanitize=vptr,function "
             "-fno-sanitize-recover=all -fsanitize-ignorelist=%s/harness/asan_ignore.txt "
             "-include %s/harness/compat.h" % (VERIF, VERIF),
             "-fsanitize=address,undefined -fno-sanitize=vptr,function"),
    "tsan": ("-O1 -fsanitize=thread", "-fsanitize=thread"),
    "plain": ("-O1", ""),
}

LIBS = {
    "modeling": ["lib/Modeling"],
    "lexer": ["lib/Lexer"],
    "ast": ["lib/AST"],
    "parser": ["lib/Parser"],
    "io": ["lib/IO"],
    "filter": ["lib/VariableFilter"],
}
EXCLUDE = {"lib/VariableFilter/VariableFilter.cpp", "lib/AST/BaseModelica/Node/ASTNode.cpp"}

from harnesses import HARNESSES


def mirror():
    os.makedirs(SRC, exist_ok=True)
    want = set()
    for top in ("include", "lib"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            rel = os.path.relpath(d, REPO)
            os.makedirs(os.path.join(SRC, rel), exist_ok=True)
            for f in files:
                p = os.path.join(rel, f)
                want.add(p)
                s, t = os.path.join(REPO, p), os.path.join(SRC, p)
                if os.path.islink(s) and not os.path.exists(s):
                    continue
                data = open(s, "rb").read()
                try:
                    if open(t, "rb").read() == data:
                        continue
                except OSError:
                    pass
                with open(t, "wb") as o:
                    o.write(data)
    for top in ("include", "lib"):
        for d, dirs, files in os.walk(os.path.join(SRC, top)):
            for f in files:
                p = os.path.relpath(os.path.join(d, f), SRC)
                if p not in want:
                    os.unlink(os.path.join(SRC, p))


def lib_sources(lib):
    out = []
    for d in LIBS[lib]:
        for dd, _, files in os.walk(os.path.join(SRC, d)):
            for f in sorted(files):
                if f.endswith(".cpp"):
                    rel = os.path.relpath(os.path.join(dd, f), SRC)
                    if rel not in EXCLUDE:
                        out.append(rel)
    return sorted(out)


def esc(p):
    return p.replace(" ", "$ ").replace(":", "$:")


def generate():
    n = ["ninja_required_version = 1.5", "builddir = " + BUILD]
    inc = "-I%s -I%s/include -I%s/include -I%s/gen/include -I%s/harness" % (
        "%s/shim" % os.path.join(VERIF, "harness"), SRC, LLVM, BUILD, VERIF)
    n.append("rule cxx\n  command = %s %s %s $flags -MD -MF $out.d -c $in -o $out\n"
             "  depfile = $out.d\n  deps = gcc\n  description = CXX $out" % (CXX, COMMON, inc))
    n.append("rule ar\n  command = rm -f $out && llvm-ar-18 rcs $out @$out.rsp || ar rcs $out @$out.rsp\n"
             "  rspfile = $out.rsp\n  rspfile_content = $in\n  description = AR $out")
    n.append("rule link\n  command = %s $lflags -fuse-ld=$ld -o $out $in $libs\n  description = LINK $out" % CXX)
    n.append("rule tblgen\n  command = %s/bin/mlir-tblgen $tflags -I%s/harness/shim -I%s/include -I%s/include $in -o $out -d $out.d\n"
             "  depfile = $out.d\n  description = TBLGEN $out" % (LLVM, VERIF, LLVM, SRC))
    ld = "gold" if os.path.exists("/usr/bin/ld.gold") else "bfd"
    n.append("ld = " + ld)
    tbl = {}
    done = set()

    def obj(variant, path, extra="", deps=()):
        rel = os.path.relpath(path, SRC) if path.startswith(SRC + "/") else "h/" + os.path.relpath(path, VERIF)
        o = os.path.join(BUILD, variant, rel + ".o")
        if o not in done:
            done.add(o)
            oo = (" || " + " ".join(map(esc, deps))) if deps else ""
            n.append("build %s: cxx %s%s\n  flags = %s %s" % (esc(o), esc(path), oo, VARIANTS[variant][0], extra))
        return o

    def tablegen(entries):
        outs = []
        for td, out, flags in entries:
            o = os.path.join(BUILD, "gen/include", out)
            if o not in done:
                done.add(o)
                n.append("build %s: tblgen %s\n  tflags = %s" % (esc(o), esc(os.path.join(SRC, td)), flags))
            outs.append(o)
        return outs

    for name, h in HARNESSES.items():
        variant = h.get("variant", "asan")
        gen = tablegen(h.get("tblgen", []))
        objs = [obj(variant, os.path.join(VERIF, "harness", s), h.get("cxxflags", ""), gen) for s in h["srcs"]]
        objs.append(obj(variant, os.path.join(VERIF, "harness", "vf_main.cpp")))
        arch = []
        for lib in h.get("libs", []):
            a = os.path.join(BUILD, variant, "lib%s.a" % lib)
            if a not in done:
                done.add(a)
                lo = [obj(variant, os.path.join(SRC, s)) for s in lib_sources(lib)]
                n.append("build %s: ar %s" % (esc(a), " ".join(map(esc, lo))))
            arch.append(a)
        for s in h.get("repo_srcs", []):
            objs.append(obj(variant, os.path.join(SRC, s), h.get("cxxflags", ""), gen))
        for d in h.get("repo_dirs", []):
            for f in sorted(os.listdir(os.path.join(SRC, d))):
                if f.endswith(".cpp") and f not in h.get("exclude", ()):
                    objs.append(obj(variant, os.path.join(SRC, d, f), h.get("cxxflags", ""), gen))
        exe = os.path.join(BUILD, "bin", name)
        syslibs = " ".join(["-L%s/lib" % LLVM, "-Wl,-rpath,%s/lib" % LLVM] +
                           h.get("syslibs", ["-lMLIR", "-lLLVM"]) + ["-lpthread"])
        n.append("build %s: link %s\n  lflags = %s\n  libs = -Wl,--start-group %s -Wl,--end-group %s" % (
            esc(exe), " ".join(map(esc, objs + [])), VARIANTS[variant][1], " ".join(arch), syslibs))
        # the archives are real inputs too
        n[-1] = n[-1].replace("\n  lflags", (" | " + " ".join(map(esc, arch)) if arch else "") + "\n  lflags", 1)
    text = "\n".join(n) + "\n"
    p = os.path.join(BUILD, "build.ninja")
    old = None
    try:
        old = open(p).read()
    except OSError:
        pass
    if old != text:
        with open(p, "w") as f:
            f.write(text)


def build(targets, quiet=True, keep_going=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    mirror()
    generate()
    cmd = ["ninja", "-C", BUILD] + (["-k", "0"] if keep_going else []) + [os.path.join(BUILD, "bin", t) for t in targets]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0 or not quiet:
        sys.stderr.write(r.stdout[-20000:])
    fcntl.flock(lock, fcntl.LOCK_UN)
    return r.returncode == 0


if __name__ == "__main__":
    t = sys.argv[1:] or list(HARNESSES)
    sys.exit(0 if build(t, quiet=False) else 1)
