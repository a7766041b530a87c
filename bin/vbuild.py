#!/usr/bin/env python3
"""Compiles /repo/src with the stand-ins for the absent libraries and links harnesses.

Objects are cached in /verif/build under a digest of everything they depend on (flags, the file and all headers), so
a stale object can't be used whatever the timestamps are.
"""
import hashlib, json, os, subprocess, sys, concurrent.futures as cf, glob, shutil, tempfile

VERIF = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GXX = "g++"
BASE = ["-std=c++20", "-w", "-pthread", "-D_GLIBCXX_ASSERTIONS"]
FLAVOURS = {
    "fast": ["-O1", "-g1"],
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # every access of the code calls mc/race.cpp, which takes the place of the sanitizer's runtime
    "race": ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
}
RACE_LINK = ["-Wl,--wrap=" + s for s in (
    "memcpy", "memmove", "memset", "memcmp", "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
    "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_", "_ZNSt8__detail15_List_node_base7_M_hookEPS0_",
    "_ZNSt8__detail15_List_node_base9_M_unhookEv")]
SKIP = {"main.cpp", "devices/dlms_device.cpp"}
LIBS = ["/usr/lib/x86_64-linux-gnu/libjsoncpp.so.25", "-lcurl", "-lpthread"]


def read(p):
    with open(p, "rb") as f:
        return f.read()


_digests = {}


def digest(p):
    if p not in _digests:
        _digests[p] = hashlib.sha256(read(p)).hexdigest()
    return _digests[p]


def sources():
    res = []
    for d, _, fs in os.walk(REPO + "/src"):
        for f in fs:
            if f.endswith(".cpp"):
                p = os.path.join(d, f)
                if os.path.relpath(p, REPO + "/src") not in SKIP:
                    res.append(p)
    return sorted(res)


def lib_sources():
    return sources() + [VERIF + "/stub/wblib_stub.cpp", VERIF + "/stub/dlms_stub.cpp"]


class Builder:
    def __init__(self, flavour, defs=()):
        self.flags = BASE + FLAVOURS[flavour] + list(defs)
        self.plain = BASE + FLAVOURS["fast"] + list(defs)
        self.inc = ["-I" + REPO + "/src", "-I" + REPO + "/thirdparty", "-I" + VERIF + "/stub",
                    "-I" + VERIF + "/stub/gurux", "-I" + VERIF + "/mc", "-I" + VERIF + "/harness"]
        self.flavour = flavour
        self.errors = {}
        os.makedirs(BUILD + "/obj", exist_ok=True)

    def is_plain(self, src):
        return self.flavour == "race" and src.startswith(VERIF + "/mc/")

    def obj(self, src):
        flags = self.plain if self.is_plain(src) else self.flags
        base = hashlib.sha256("\0".join(flags + [src]).encode()).hexdigest()[:24]
        deps_file = "%s/obj/%s.deps" % (BUILD, base)

        def name(deps):
            h = hashlib.sha256((base + "\0" + GXX).encode())
            for d in deps:
                h.update(d.encode() + b"\0" + digest(d).encode())
            return "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src)[:-4], h.hexdigest()[:24])

        # Contents of all files the last compilation has read are in the name of the object. A new dependency can
        # only appear together with a change in one of them.
        if os.path.exists(deps_file):
            with open(deps_file) as f:
                deps = json.load(f)
            if all(os.path.exists(d) for d in deps):
                out = name(deps)
                if os.path.exists(out):
                    return out
        tmp = "%s/obj/%s.%d.tmp" % (BUILD, base, os.getpid())
        r = subprocess.run([GXX] + flags + self.inc + ["-c", src, "-MD", "-MF", tmp + ".d", "-o", tmp],
                           stderr=subprocess.PIPE, text=True)
        if r.returncode:
            self.errors[src] = r.stderr
            return None
        with open(tmp + ".d") as f:
            words = f.read().replace("\\\n", " ").split()[1:]
        os.unlink(tmp + ".d")
        deps = sorted({os.path.normpath(w) for w in words if not w.startswith("/usr/")})
        out = name(deps)
        os.rename(tmp, out)
        with open(tmp, "w") as f:
            json.dump(deps, f)
        os.rename(tmp, deps_file)
        return out

    def objects(self, srcs):
        with cf.ThreadPoolExecutor(max_workers=(os.cpu_count() or 4) + 1) as ex:
            return dict(zip(srcs, ex.map(self.obj, srcs)))

    def build(self, harness_sources, exe, nolib=False, extra_libs=()):
        """Compiles everything and links. Returns the executable or None"""
        own = [VERIF + "/" + s for s in harness_sources]
        lib = [] if nolib else lib_sources()
        # the longest compilations first
        order = own + sorted(lib, key=lambda p: -os.path.getsize(p))
        objs = self.objects(order)
        for s in own:
            if objs[s] is None:
                sys.stderr.write(self.errors[s][:4000])
                sys.stderr.write("can't compile %s\n" % s)
                return None
        for s in lib:
            if objs[s] is None:
                sys.stderr.write("warning: can't compile %s:\n%s\n" % (s, self.errors[s][:2000]))
        libobjs = [objs[s] for s in lib if objs[s]]
        os.makedirs(BUILD + "/bin", exist_ok=True)
        key = hashlib.sha256("\n".join([objs[s] for s in own] + libobjs + list(extra_libs)).encode()).hexdigest()[:16]
        ar = "%s/bin/lib%s-%s.a" % (BUILD, os.path.basename(exe), key)
        out = "%s/bin/%s-%s" % (BUILD, exe, key)
        if os.path.exists(out):
            return out
        tmp = ar + ".%d.a" % os.getpid()
        if os.path.exists(tmp):
            os.unlink(tmp)
        subprocess.run(["ar", "crs", tmp] + libobjs, check=True)
        if self.flavour == "race":
            # not instrumented copies of inline functions must not be preferred
            flags = self.plain + RACE_LINK
            order = [objs[s] for s in own if not self.is_plain(s)] + ["-Wl,--whole-archive", tmp, "-Wl,--no-whole-archive"]
            order += [objs[s] for s in own if self.is_plain(s)]
        else:
            flags = self.flags
            order = [objs[s] for s in own] + [tmp]
        r = subprocess.run([GXX] + flags + order + LIBS + list(extra_libs) + ["-o", out + ".tmp"],
                           stderr=subprocess.PIPE, text=True)
        os.unlink(tmp)
        if r.returncode:
            sys.stderr.write(r.stderr[-4000:])
            return None
        os.rename(out + ".tmp", out)
        return out


def clean(max_bytes=3 << 30):
    """Keeps the cache small"""
    fs = sorted(glob.glob(BUILD + "/*/*"), key=os.path.getmtime)
    total = sum(os.path.getsize(f) for f in fs)
    for f in fs:
        if total < max_bytes:
            break
        total -= os.path.getsize(f)
        os.unlink(f)
