"""Out-of-tree build of the real trRouting server from /repo's working tree.

Source lists come from the repository's own Makefile.am files.  Objects are cached by content: the key of an
object is the hash of the flags, of the translation unit and of every header it included when last compiled
(from the compiler's depfile), so a check recompiles exactly what a change touches."""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")

BASE = ["-std=gnu++17", "-g1", "-w", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-DSPDLOG_SHARED_LIB",
        "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DTRROUTING_VERIF", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined",
             "-fno-omit-frame-pointer"],
    "api": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,signed-integer-overflow", "-fno-sanitize-recover=undefined",
            "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-fsanitize=thread"],
}
LIBS = ["-lboost_regex", "-lboost_system", "-lboost_program_options", "-lboost_date_time", "-lspdlog", "-lfmt",
        "-lcapnp", "-lkj", "-pthread", "-ldl"]


class BuildError(Exception):
    pass


def _sources():
    out = []
    for sub, var in (("src", "trRouting_SOURCES"), ("connection_scan_algorithm/src", "libcsa_la_SOURCES")):
        text = open(os.path.join(REPO, sub, "Makefile.am")).read()
        m = re.search(var + r"\s*=((?:[^\n]*\\\n)*[^\n]*)", text)
        for f in m.group(1).replace("\\\n", " ").split():
            out.append(os.path.join(REPO, sub, f))
    return out


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


_fh = {}


def _filehash(p):
    if p not in _fh:
        try:
            _fh[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        except OSError:
            _fh[p] = "missing"
    return _fh[p]


def _gen_capnp():
    src = os.path.join(REPO, "include", "capnp")
    gen = os.path.join(BUILD, "gen")
    os.makedirs(os.path.join(gen, "capnp"), exist_ok=True)
    files = sorted(f for f in os.listdir(src) if f.endswith(".capnp"))
    key = _h("v2", *[f + _filehash(os.path.join(src, f)) for f in files])
    stamp = os.path.join(gen, "stamp")
    # only schemas that the sources include need to compile (some in the tree have never been compiled)
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        used = set()
        for s in _sources() + [os.path.join(REPO, "include", f) for f in os.listdir(os.path.join(REPO, "include"))
                               if f.endswith(".hpp")]:
            used |= set(re.findall(r'"(?:capnp/)?(\w+)\.capnp\.h"', open(s, errors="replace").read()))
        work = sorted(used)
        while work:
            f = os.path.join(src, work.pop() + ".capnp")
            if os.path.exists(f):
                for i in re.findall(r'import\s+"/?(\w+)\.capnp"', open(f).read()):
                    if i not in used:
                        used.add(i)
                        work.append(i)
        todo = [f for f in files if f[:-6] in used]
        r = subprocess.run(["capnp", "compile", "-oc++:" + os.path.join(gen, "capnp"), "--src-prefix=" + src] +
                           [os.path.join(src, f) for f in todo], capture_output=True, text=True, cwd=src)
        if r.returncode:
            raise BuildError("capnp compile failed: " + r.stderr)
        for f in todo:
            c = os.path.join(gen, "capnp", f + ".c++")
            c2 = os.path.join(gen, "capnp", f[:-6] + ".capnp.cpp")
            shutil.move(c, c2)
        open(stamp, "w").write(key)
    return [os.path.join(gen, "capnp", f) for f in sorted(os.listdir(os.path.join(gen, "capnp")))
            if f.endswith(".cpp")]


def _compile(variant, src, flags, out_dir):
    name = re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, "/"))
    meta = os.path.join(out_dir, name + ".json")
    flagkey = _h(" ".join(flags))
    if os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if (m["flags"] == flagkey and all(_filehash(p) == h for p, h in m["deps"].items())
                    and os.path.exists(m["obj"])):
                return m["obj"], False
        except (ValueError, KeyError):
            pass
    obj = os.path.join(out_dir, name + ".o")
    dep = os.path.join(out_dir, name + ".d")
    cmd = ["g++"] + flags + ["-MMD", "-MF", dep, "-c", src, "-o", obj]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"compile failed: {src}\n{r.stderr[-4000:]}")
    deps = open(dep).read().replace("\\\n", " ").split()[1:]
    d = {p: _filehash(p) for p in deps if not p.startswith("/usr/")}
    json.dump({"flags": flagkey, "deps": d, "obj": obj}, open(meta, "w"))
    return obj, True


def build(variant="plain", quiet=True):
    """Returns the path of the server binary of this variant, rebuilt if needed."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _fh.clear()
        gensrc = _gen_capnp()
        out_dir = os.path.join(BUILD, variant)
        os.makedirs(out_dir, exist_ok=True)
        flags = BASE + VARIANTS[variant] + ["-I" + os.path.join(BUILD, "gen"),
                                            "-I" + os.path.join(BUILD, "gen", "capnp"),
                                            "-I" + os.path.join(REPO, "include"),
                                            "-I" + os.path.join(REPO, "connection_scan_algorithm", "include")]
        srcs = _sources() + gensrc
        hook = os.path.join(VERIF, "lib", "hook.cpp")
        if os.path.exists(hook):
            srcs.append(hook)
        srcs.sort(key=lambda s: -os.path.getsize(s) if "http_server" not in s else -10**9)
        with concurrent.futures.ThreadPoolExecutor(max_workers=min(16, (os.cpu_count() or 4) + 1)) as ex:
            res = list(ex.map(lambda s: _compile(variant, s, flags, out_dir), srcs))
        binary = os.path.join(out_dir, "trRouting")
        linkkey = _h(*[_filehash2(o) for o, _ in res])
        lk2 = os.path.join(out_dir, "link.key")
        if any(n for _, n in res) or not os.path.exists(binary) or not os.path.exists(lk2) or open(lk2).read() != linkkey:
            r = subprocess.run(["g++"] + VARIANTS[variant] + ["-o", binary + ".tmp"] + [o for o, _ in res] + LIBS,
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError("link failed: " + r.stderr[-4000:])
            os.replace(binary + ".tmp", binary)
            open(lk2, "w").write(linkkey)
        return binary


def perturb():
    """the library that is preloaded to make the threads pause around locks"""
    src = os.path.join(VERIF, "lib", "perturb.c")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        so = os.path.join(BUILD, f"perturb-{_h(open(src, 'rb').read())[:12]}.so")
        if not os.path.exists(so):
            r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so + ".tmp", src, "-ldl"], capture_output=True, text=True)
            if r.returncode:
                raise BuildError("perturb.c: " + r.stderr[-2000:])
            os.replace(so + ".tmp", so)
    return so


def _filehash2(p):
    st = os.stat(p)
    return f"{p}:{st.st_size}:{st.st_mtime_ns}"


if __name__ == "__main__":
    import time
    for v in (sys.argv[1:] or list(VARIANTS)):
        t = time.time()
        print(v, build(v), round(time.time() - t, 1), flush=True)
