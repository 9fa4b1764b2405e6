#!/usr/bin/env python3
"""Builds the library from /repo's working tree and one driver against it, cached by content under /verif/build."""
import hashlib, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VF_REPO", "/repo")
B = os.path.join(V, "build")
EXT = R + "/src/external_library"
BOOST = EXT + "/boost_1_80_0_minimal"
INC = [f"{R}/include", f"{R}/include/snn"] + [f"{R}/include/snn/" + d for d in (
    "data", "tools", "neural_network", "neural_network/layer", "neural_network/layer/neuron",
    "neural_network/layer/neuron/activation_function", "neural_network/optimizer")] + [BOOST, EXT + "/bitmap", EXT + "/cpp-static-block"]
OPT = os.environ.get("VF_OPT", "-O2")
BASE = ["-std=c++20", "-DNDEBUG", "-w", "-pthread"]
LIBF = BASE + [OPT, "-ffast-math", "-fopenmp", "-D_GLIBCXX_ASSERTIONS"]   # the project's own flags, plus bounds checks
DRVF = BASE + ["-O1", "-fopenmp", "-D_GLIBCXX_ASSERTIONS"]                # drivers: no fast-math, they judge NaN and infinities
SANF = os.environ.get("VF_SAN", "").split()

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f: return f.read()

def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts): h.update(os.path.relpath(os.path.join(root, f), d).encode()); h.update(read(os.path.join(root, f)))
    return h.hexdigest()

def lib_sources():
    s = []
    for root, ds, fs in os.walk(R + "/src"):
        if "external_library" in root: continue
        s += [os.path.join(root, f) for f in fs if f.endswith(".cpp")]
    return sorted(s)

def ext_sources():
    return sorted(glob.glob(BOOST + "/libs/serialization/src/*.cpp") + glob.glob(EXT + "/bitmap/*.cpp") + glob.glob(EXT + "/cpp-static-block/*.cpp"))

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0: raise RuntimeError("build failed: " + " ".join(cmd) + "\n" + p.stdout[-4000:])

def build(driver, verbose=False):
    os.makedirs(B + "/obj", exist_ok=True)
    hh = tree_hash([R + "/include"], (".hpp", ".tpp", ".h"))
    # an extension header (boost) is part of the repository too, but hashing 3000 files is slow: use names and sizes
    eh = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(EXT)):
        ds.sort()
        for f in sorted(fs):
            st = os.stat(os.path.join(root, f)); eh.update(f"{os.path.join(root, f)}:{st.st_size}".encode())
    for f in (EXT + "/bitmap/BitmapImage.hpp", EXT + "/cpp-static-block/static_block.hpp"): eh.update(read(f))
    eh = eh.hexdigest()
    inc = ["-I" + d for d in INC]
    jobs, objs = [], []
    def obj(src, flags, extra):
        o = f"{B}/obj/{sha(src, read(src), ' '.join(flags), extra, hh, eh)}.o"
        objs.append(o)
        if not os.path.exists(o): jobs.append((os.path.getsize(src), src, flags, o))
    hdrs = tree_hash([V + "/harness"], (".hpp",))
    drv = f"{V}/harness/{driver}.cpp"
    for s in lib_sources(): obj(s, LIBF + SANF, "")
    for s in ext_sources(): obj(s, BASE + ["-O1"] + SANF, "")
    obj(drv, DRVF + SANF, hdrs)
    exe = f"{B}/{driver}-{sha(*objs)}"
    if os.path.exists(exe): return exe
    jobs.sort(key=lambda j: (j[1] != drv, "external" in j[1], -j[0]))
    def comp(j):
        _, src, flags, o = j
        t = o + f".{os.getpid()}.tmp"
        run(["g++", *flags, *inc, "-c", src, "-o", t]); os.replace(t, o)
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex: list(ex.map(comp, jobs))
    t = exe + f".{os.getpid()}.tmp"
    run(["g++", "-rdynamic", "-pthread", "-fopenmp", *SANF, *objs, "-o", t, "-ldl"]); os.replace(t, exe)
    return exe

if __name__ == "__main__":
    import time; t = time.time()
    for d in sys.argv[1:]: print(build(d), f"{time.time()-t:.1f}s")
