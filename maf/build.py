"""Compile /repo's current sources to LLVM IR, link, normalise and export them.

Nothing of the code under analysis is run: clang stops after IR generation
(-Xclang -disable-llvm-passes), llvm-link merges the units, opt promotes
locals to registers and /verif/tool/irdump writes the result as JSON.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MAF_REPO", "/repo")
CXX = "clang++-18"
STDH = ("ctime cassert cstdint thread iomanip chrono unordered_map unordered_set map set list forward_list queue vector sstream "
        "ostream streambuf string string_view tuple type_traits iterator future mutex atomic memory algorithm functional "
        "typeindex typeinfo any variant condition_variable shared_mutex optional").split()
FLAGS = ["-std=gnu++17", "-w", "-DMAF_MIN_ALLOWED_LOG_LEVEL=1", "-DMAF_STATIC_LIBRARY"]
CODEGEN = ["-O1", "-g", "-Xclang", "-disable-llvm-passes", "-flto", "-fwhole-program-vtables", "-fvisibility=hidden",
           "-fstandalone-debug", "-emit-llvm"]


OVERLAY = {
    "stl_algobase.h": [(r"__find_if(\(_RandomAccessIterator __first, _RandomAccessIterator __last,\s+_Predicate __pred, random_access_iterator_tag\))", r"__find_if_unrolled\1")],
    "list.tcc": [(r"(remove_if\(_Predicate __pred\)[^{]*)\{.*?\n      \}\n", r"""\1{
        size_type __n = 0;
        iterator __first = begin();
        while (__first != end())
          if (__pred(*__first)) { __first = erase(__first); ++__n; }
          else ++__first;
        return _GLIBCXX20_ONLY((__n));
    }
""")],
}


class BuildError(Exception):
    pass


def includes():
    return ["-I%s/include" % REPO, "-I%s/src/common" % REPO, "-I%s/src/platforms/unix" % REPO]


def units():
    r = []
    for f in glob.glob(REPO + "/src/**/*.cpp", recursive=True):
        if "/windows/" in f:
            continue
        r.append(f)
    return sorted(r)


def overlay(scratch):
    """standard headers whose loops are written out by hand get their plain loops back: same meaning, analysed as written in the standard"""
    d = scratch + "/ovl/bits"
    os.makedirs(d, exist_ok=True)
    for name, pats in OVERLAY.items():
        h = [x for x in glob.glob("/usr/include/c++/*/bits/" + name)]
        if not h:
            continue
        with open(sorted(h, key=lambda x: int(re.sub(r"\D", "", x.split("/")[4]) or 0))[-1]) as f:
            s = f.read()
        for a, b in pats:
            s = re.sub(a, b, s, flags=re.S)
        with open(d + "/" + name, "w") as f:
            f.write(s)
    return ["-I" + scratch + "/ovl"]


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, text=True, errors="replace")
    return p.returncode, p.stdout


def tool(scratch):
    t = VERIF + "/build/irdump"
    src = VERIF + "/tool/irdump.cpp"
    if os.path.exists(t) and os.path.getmtime(t) >= os.path.getmtime(src):
        return t
    out = scratch + "/irdump"
    rc, cf = sh(["/usr/lib/llvm-18/bin/llvm-config", "--cxxflags"])
    rc, o = sh([CXX, "-O1", "-w"] + cf.split() + ["-std=c++17", "-fexceptions", src, "-o", out, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    if rc:
        raise BuildError("cannot build irdump:\n" + o)
    return out


def pch(scratch, ovl):
    """precompiled standard headers (+ the project's logger header, as its own build does)"""
    h = scratch + "/std.h"
    with open(h, "w") as f:
        for x in STDH:
            f.write("#include <%s>\n" % x)
        f.write("#include <maf/logging/Logger.h>\n")
    rc, o = sh([CXX] + FLAGS + CODEGEN[:-1] + ["-x", "c++-header", h, "-o", h + ".pch"] + ovl + includes())
    if rc:
        raise BuildError("precompiling headers failed:\n" + o)
    return h


def sources_digest():
    h = hashlib.sha256()
    for base in (REPO + "/src", REPO + "/include", VERIF + "/witness", VERIF + "/tool"):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def build(witness=True):
    """returns the exported program as a dict, plus the list of analysed units"""
    cache = os.environ.get("MAF_DEV_CACHE")
    key = None
    if cache:
        key = "%s/%s.json" % (cache, sources_digest())
        if os.path.exists(key):
            with open(key) as f:
                return json.load(f)
    scratch = tempfile.mkdtemp(prefix="mafsa.")
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            ft = ex.submit(tool, scratch)
            ovl = overlay(scratch)
            hdr = pch(scratch, ovl)
            us = units()
            wit = sorted(glob.glob(VERIF + "/witness/*.cpp")) if witness else []
            if len(us) < 20:
                raise BuildError("only %d translation units found under %s/src" % (len(us), REPO))

            def comp(u):
                o = scratch + "/" + hashlib.sha1(u.encode()).hexdigest()[:12] + ".bc"
                extra = ["-fdelayed-template-parsing"] if "/witness/delayed_" in u else []
                pc = ["-include-pch", hdr + ".pch"] if not extra else ["-include", hdr]
                rc, out = sh([CXX] + FLAGS + CODEGEN + extra + pc + ["-c", u, "-o", o] + ovl + includes())
                return u, rc, out, o
            res = list(ex.map(comp, sorted(us, key=lambda u: -os.path.getsize(u)) + wit))
            bad = [(u, out) for u, rc, out, o in res if rc and u not in wit]
            broken = {os.path.basename(u)[:-4]: out for u, rc, out, o in res if rc and u in wit}
            wit = [u for u in wit if os.path.basename(u)[:-4] not in broken]
            if bad:
                raise BuildError("\n".join("%s does not compile:\n%s" % (u, out[:3000]) for u, out in bad))
            td = ft.result()
        order = {u: o for u, rc, out, o in res}
        lk, fin, js = scratch + "/all.bc", scratch + "/fin.bc", scratch + "/all.json"
        rc, o = sh(["llvm-link-18"] + [order[u] for u in us + wit] + ["-o", lk])
        if rc:
            raise BuildError("llvm-link: " + o[:2000])
        rc, o = sh(["opt-18", "-passes=mem2reg", lk, "-o", fin])
        if rc:
            raise BuildError("opt: " + o[:2000])
        rc, o = sh([td, fin, js])
        if rc:
            raise BuildError("irdump: " + o[:2000])
        with open(js) as f:
            j = json.load(f)
        j["units"] = us
        j["witness"] = wit
        j["broken"] = {u: next((x for x in out.splitlines() if "error:" in x), out)[-300:] for u, out in broken.items()}
        if key:
            os.makedirs(cache, exist_ok=True)
            with open(key, "w") as f:
                json.dump(j, f)
        return j
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    j = build()
    print(len(j["fns"]), len(j["types"]), len(j["units"]), time.time() - t)
