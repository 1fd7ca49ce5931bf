"""Builds the instrumented flavours of the library, the tools and the monitors from the current working tree."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
REDIRECT = ["malloc", "calloc", "realloc", "reallocarray", "free", "strdup", "strndup", "fopen", "fclose"]

class BuildError(Exception):
    pass

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout

def digest(parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "big")); h.update(p)
    return h.hexdigest()[:20]

def read(p):
    with open(p, "rb") as f:
        return f.read()

SAN = {
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"],
    # undefined behaviour is C01's subject (and shifting into the sign bit C15's); zero-length uses of null pointers are harmless
    "ubsan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=function,nonnull-attribute,pointer-overflow", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
    "msan": ["-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer", "-fsanitize-memory-track-origins=2"],
    "plain": ["-O2", "-g"],
}
TOOLDEF = ["-DHAVE_GETOPT_H=1", '-DPACKAGE_NAME="libiff"', '-DPACKAGE_VERSION="0.1"']

def sources():
    src = os.path.join(REPO, "src")
    lib = sorted(p for p in glob.glob(src + "/libiff/*.c"))
    hdr = sorted(p for p in glob.glob(src + "/libiff/*.h") + glob.glob(src + "/libiff/*.h.in") if os.path.basename(p) != "ifftypes.h")
    tool = sorted(glob.glob(src + "/iffpp/*.[ch]") + glob.glob(src + "/iffjoin/*.[ch]"))
    return lib, hdr, tool

def atomic_dir(final, make):
    """make(tmp) fills a directory which then becomes `final`."""
    if os.path.isdir(final):
        os.utime(final)
        return final
    tmp = final + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    make(tmp)
    os.rename(tmp, final)
    return final

def prune(keep=12):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))]
    ds.sort(key=os.path.getmtime, reverse=True)
    now = time.time()
    for d in ds[keep:]:
        if now - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)

class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.lock = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.lib, self.hdr, self.tool = sources()
        self.hhash = digest([x for p in self.hdr for x in (os.path.basename(p), read(p))])
        self.lhash = digest([self.hhash] + [x for p in self.lib for x in (os.path.basename(p), read(p))])
        self.thash = digest([self.lhash] + [x for p in self.tool for x in (os.path.basename(p), read(p))])
        self.pool = ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2))
    def close(self):
        self.pool.shutdown()
        self.lock.close()
    def par(self, cmds):
        list(self.pool.map(sh, cmds))
    def include(self, big="0"):
        def make(tmp):
            for p in self.hdr:
                if p.endswith(".h.in"):
                    with open(os.path.join(tmp, os.path.basename(p)[:-3]), "w") as f:
                        f.write(open(p).read().replace("@IFF_BIG_ENDIAN@", big))
                else:
                    shutil.copy(p, tmp)
        return atomic_dir(os.path.join(BUILD, "inc-" + self.hhash + ("" if big == "0" else "-big")), make)
    def libobjs(self, flavour, redirect, cov, big="0"):
        flags = SAN[flavour] + (["-fsanitize-coverage=trace-pc-guard"] if cov else [])
        if flavour == "tsan":
            flags = flags + ["-O0"]   # the accesses as written: an optimizer may remove one that another compiler keeps
        key = digest([self.lhash, repr(flags), str(redirect), "1"] + ([] if big == "0" else ["big"]))
        inc = self.include(big)
        def make(tmp):
            cmds = []
            sd = os.path.join(tmp, "src"); os.makedirs(sd)
            for p in self.lib:   # compiled from a copy: the generated header beside the sources must not be picked up
                shutil.copy(p, sd)
                o = os.path.join(tmp, os.path.basename(p)[:-2] + ".o")
                cmds.append(["clang", "-w"] + flags + ["-I", inc, "-c", os.path.join(sd, os.path.basename(p)), "-o", o])
            self.par(cmds)
            if redirect:
                m = os.path.join(tmp, "map")
                with open(m, "w") as f:
                    for s in REDIRECT:
                        f.write("%s vp_%s\n" % (s, s))
                self.par([["objcopy", "--redefine-syms=" + m, c[-1]] for c in cmds])
        d = atomic_dir(os.path.join(BUILD, "lib-%s-%s" % (flavour, key)), make)
        return sorted(glob.glob(d + "/*.o"))
    def harness(self, flavour, files, defs=()):
        hfiles = sorted(glob.glob(HARNESS + "/*.h"))
        flags = SAN[flavour] + list(defs)
        inc = self.include()
        common = [self.hhash, repr(flags)] + [read(p) for p in hfiles]
        objs, cmds = [], []
        for f in files:
            p = os.path.join(HARNESS, f)
            key = digest(common + [read(p)])
            o = os.path.join(BUILD, "obj-%s-%s-%s.o" % (flavour, f, key))
            objs.append(o)
            if not os.path.exists(o):
                cc = ["clang++", "-std=c++17", "-w"] if f.endswith(".cpp") else ["clang", "-w"]
                cmds.append((cc + flags + ["-I", inc, "-I", HARNESS, "-c", p, "-o", o + ".tmp.o"], o))
            else:
                os.utime(o)
        self.par([c for c, _ in cmds])
        for _, o in cmds:
            os.rename(o + ".tmp.o", o)
        return objs
    def link(self, name, objs, flavour, cxx=True, extra=()):
        key = digest([name, flavour] + [os.path.abspath(o) for o in objs] + [str(os.path.getsize(o)) for o in objs])
        def make(tmp):
            sh((["clang++"] if cxx else ["clang"]) + SAN[flavour] + list(objs) + ["-o", os.path.join(tmp, name), "-lpthread"] + list(extra))
        return os.path.join(atomic_dir(os.path.join(BUILD, "bin-%s-%s" % (name, key)), make), name)
    def tools(self, flavour):
        inc = self.include()
        lib = self.libobjs(flavour, False, False)
        key = digest([self.thash, flavour, repr(SAN[flavour])])
        def make(tmp):
            for t in ("iffpp", "iffjoin"):
                sd = os.path.join(tmp, "src-" + t); os.makedirs(sd)
                for p in self.tool:
                    if os.path.basename(os.path.dirname(p)) == t:
                        shutil.copy(p, sd)
                sh(["clang", "-w"] + SAN[flavour] + TOOLDEF + ["-I", inc, "-I", sd] + sorted(glob.glob(sd + "/*.c")) + lib + ["-o", os.path.join(tmp, t)])
        d = atomic_dir(os.path.join(BUILD, "tools-%s-%s" % (flavour, key)), make)
        return os.path.join(d, "iffpp"), os.path.join(d, "iffjoin")
    # ------------------------------------------------------------ products
    def runner(self, lib):
        """The monitors (under AddressSanitizer) with the library built as `lib`."""
        files = sorted(os.path.basename(p) for p in glob.glob(HARNESS + "/*.cpp") if not os.path.basename(p).startswith("alone_"))
        return self.link("runner", self.harness("asan", files) + self.libobjs(lib, True, True), lib)
    def tsan(self):
        return self.link("threads", self.harness("tsan", ["hooks.cpp", "model.cpp", "alone_threads.cpp"], ["-DVP_TSAN"]) + self.libobjs("tsan", False, False), "tsan")
    def ids(self):
        return self.link("ids", self.harness("plain", ["alone_ids.cpp"]) + self.libobjs("plain", False, False), "plain")
    def endian(self):
        return self.link("endian", self.harness("plain", ["alone_endian.cpp"]) + self.libobjs("plain", False, False, "1"), "plain")
    def msan(self):
        return self.link("msanrun", self.harness("msan", ["alone_cdriver.c"]) + self.libobjs("msan", False, False), "msan", cxx=False)
    def plain_driver(self):
        return self.link("plainrun", self.harness("plain", ["alone_cdriver.c"]) + self.libobjs("plain", False, False), "plain", cxx=False)

def prune_objs():
    now = time.time()
    for o in glob.glob(BUILD + "/obj-*.o"):
        if now - os.path.getmtime(o) > 4 * 3600:
            os.unlink(o)
