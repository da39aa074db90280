"""Builds the simulators from the current working tree of /repo into /verif/build (never into /repo)."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(ROOT, "build"))
INC = os.path.join(REPO, "include")


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


def tree_hash(extra):
    h = hashlib.sha256()
    for base in (INC, os.path.join(ROOT, "sim"), os.path.join(ROOT, "driver")):
        for d, dirs, files in os.walk(base):
            dirs.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def embed(src, dst, var):
    """What cmake/textfile2h.cmake does: the text as a raw string literal."""
    text = open(src, "rb").read()
    d = b"*=*"
    while d in text:
        d += b"*"
    with open(dst, "wb") as o:
        o.write(b"const char " + var.encode() + b"[] = R\"" + d + b"(" + text + b")" + d + b"\";\n\nconst size_t "
                + var.encode() + b"_SIZE = " + str(len(text)).encode() + b";\n")


def generated_headers(inc):
    t = os.path.join(inc, "cppad", "cg", "model", "threadpool")
    os.makedirs(t, exist_ok=True)
    s = os.path.join(INC, "cppad", "cg", "model", "threadpool")
    for f, var in (("pthread_pool", "CPPADCG_PTHREAD_POOL"), ("openmp", "CPPADCG_OPENMP")):
        embed(os.path.join(s, f + ".c"), os.path.join(t, f + "_c.hpp"), var + "_C_FILE")
        embed(os.path.join(s, f + ".h"), os.path.join(t, f + "_h.hpp"), var + "_H_FILE")
    c = open(os.path.join(INC, "cppad", "cg", "configure.hpp.in")).read()
    v = "2.5.0"
    try:
        m = re.search(r"cppadcg_version\s+([0-9.]+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
        if m:
            v = m.group(1)
    except OSError:
        pass
    open(os.path.join(inc, "cppad", "cg", "configure.hpp"), "w").write(c.replace("@cppadcg_version@", v))


RENAMED = ["malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc", "strdup", "fprintf", "printf", "puts", "putchar",
           "fputs", "fputc", "fwrite", "fflush", "perror", "prctl", "pthread_setname_np", "exit", "abort", "__assert_fail", "vfprintf",
           "__isoc99_fscanf", "__fprintf_chk", "__printf_chk"]
RENAME_TO = {"__fprintf_chk": "sim_fprintf_chk", "__printf_chk": "sim_printf_chk"}


class Ctx:
    def __init__(self, name):
        self.key = tree_hash(name)
        self.dir = os.path.join(BUILD, name + "-" + self.key)
        self.inc = os.path.join(self.dir, "inc")
        self.name = name

    def sim(self, *p):
        return os.path.join(ROOT, "sim", *p)

    def out(self, *p):
        return os.path.join(self.dir, *p)

    def env(self):
        return {"SIM_SO": self.dir if self.name == "life" else self.out("libcorpus.so")}

    def incs(self):
        return ["-I" + self.inc, "-I" + INC]


CORE = ["sched", "seams", "runner", "newseam"]


# the simulator's own allocations never fail and are not part of the simulated system
OWN_NEW = ["_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"]


def core_cmd(c, src, n):
    own = "" if n == "newseam" else " ".join("--redefine-sym %s=own%s" % (x, x) for x in OWN_NEW)
    o = c.out(n + ".o")
    # template instantiations shared with the system under test (which are instrumented there) must not be merged with it
    return ["sh", "-c", "set -e; clang++ -O2 -g1 -w -std=c++17 -c {s} -o {o}.1; ld -r --force-group-allocation {o}.1 -o {o}.2; "
            "nm --defined-only {o}.2 | awk '$2==\"W\"{{print $3}}' > {o}.loc; objcopy {w} --localize-symbols={o}.loc {o}.2 {o}".format(s=src, o=o, w=own)]


def core_cmds(c, names=CORE):
    return [core_cmd(c, c.sim("core", n + ".cpp"), n) for n in names]


def cxx_gen(c, src, obj, extra=()):
    return ["clang++", "-O0", "-g0", "-w", "-std=c++14", *extra, *c.incs(), "-c", src, "-o", obj]


def cxx_instr(c, src, obj, extra=()):
    return ["clang++", "-O1", "-g1", "-w", "-fsanitize=thread", "-fno-omit-frame-pointer", "-std=c++14", "-DCPPAD_MAX_NUM_THREADS=256", *extra,
            *c.incs(), "-c", src, "-o", obj]


def par(cmds):
    with ThreadPoolExecutor(8) as ex:
        for r in [ex.submit(sh, x) for x in cmds]:
            r.result()


def rename_file(c):
    p = c.out("rename.txt")
    with open(p, "w") as o:
        for s in RENAMED:
            o.write("%s %s\n" % (s, RENAME_TO.get(s, "sim_" + s)))
    return p


def build_so(c, srcdir, so, extra=(), renames=()):
    """C sources -> instrumented objects -> seams renamed -> shared library."""
    rn = rename_file(c)
    odir = so + ".objs"
    os.makedirs(odir, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(srcdir, "*.c")))

    def one(s):
        o = os.path.join(odir, os.path.basename(s) + ".o")
        sh(["clang", "-O1", "-g1", "-w", "-std=gnu11", "-fPIC", "-fsanitize=thread", "-fno-builtin-printf", "-fno-builtin-fprintf", *extra,
            "-I" + srcdir, "-c", s, "-o", o])
        sh(["objcopy", "--redefine-syms=" + rn, o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    sh(["clang", "-shared", "-fPIC", "-o", so, *objs, "-lm"])
    if not objs:
        raise BuildError("no sources in " + srcdir)
    return len(objs)


def build_pool(c, openmp=False):
    generated_headers(c.inc)
    omp = ["-fopenmp", "-I" + c.sim("openmp")] if openmp else []
    gen = c.out("gen")
    src = c.out("src")

    def genchain():
        sh(cxx_gen(c, c.sim("pool", "pool_gen.cpp"), c.out("gen.o")))
        sh(["clang++", "-o", gen, c.out("gen.o"), "-lcppad_lib", "-ldl", "-pthread"])
        os.makedirs(src, exist_ok=True)
        sh([gen, src, "openmp" if openmp else "pthreads"])
        build_so(c, src, c.out("libcorpus.so"), omp)
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(genchain), ex.submit(sh, cxx_instr(c, c.sim("pool", "pool_main.cpp"), c.out("main.o"),
                                                                      ["-DSIM_OPENMP"] if openmp else []))]
        fs += [ex.submit(sh, x) for x in core_cmds(c)]
        if openmp:
            fs.append(ex.submit(sh, core_cmd(c, c.sim("openmp", "omp_rt.cpp"), "omp_rt")))
        for f in fs:
            f.result()
    sh(["clang++", "-rdynamic", "-o", c.out("simulator"), c.out("main.o"), *[c.out(n + ".o") for n in CORE],
        *([c.out("omp_rt.o")] if openmp else []), "-lcppad_lib", "-ldl", "-pthread"])


TOOL_SYMS = ["read", "write", "close", "pipe", "pipe2", "dup", "dup2", "dup3", "fcntl", "fork", "vfork", "execv", "execve", "execvp", "_exit", "_Exit", "waitpid",
             "wait", "kill", "poll", "open", "mkdir", "remove", "unlink", "rmdir", "rename", "stat", "access", "getcwd", "pthread_sigmask", "sigprocmask",
             "sigpending", "sigwait", "sigtimedwait", "signal", "sigaction", "dlopen", "dlsym", "dlclose", "dlerror"]
TOOL_MAP = {"perror": "sim_tool_perror", "exit": "sim_tool_exit", "abort": "sim_tool_abort", "open64": "sim_open64", "stat64": "sim_stat64", "fcntl64": "sim_fcntl64", "__read_chk": "sim_read_chk"}


def build_tool(c):
    generated_headers(c.inc)
    rn = c.out("rename_main.txt")
    with open(rn, "w") as o:
        for s in TOOL_SYMS:
            o.write("%s sim_%s\n" % (s, s))
        for a, b in TOOL_MAP.items():
            o.write("%s %s\n" % (a, b))

    def main():
        sh(cxx_instr(c, c.sim("tool", "tool_main.cpp"), c.out("main.o")))
        sh(["objcopy", "--redefine-syms=" + rn, c.out("main.o")])
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(main), ex.submit(sh, core_cmd(c, c.sim("tool", "kernel.cpp"), "kernel"))]
        fs += [ex.submit(sh, x) for x in core_cmds(c)]
        for f in fs:
            f.result()
    sh(["clang++", "-rdynamic", "-o", c.out("simulator"), c.out("main.o"), c.out("kernel.o"), *[c.out(n + ".o") for n in CORE],
        "-lcppad_lib", "-ldl", "-pthread"])


def build_life(c):
    """Library life cycle: two plain libraries and one with a thread pool behind a simulated loader."""
    generated_headers(c.inc)
    rn = c.out("rename_main.txt")
    with open(rn, "w") as o:
        for s in ("dlopen", "dlsym", "dlclose", "dlerror"):
            o.write("%s sim_%s\n" % (s, s))

    def main():
        sh(cxx_instr(c, c.sim("life", "life_main.cpp"), c.out("main.o")))
        sh(["objcopy", "--redefine-syms=" + rn, c.out("main.o")])

    def libs():
        sh(cxx_gen(c, c.sim("pool", "pool_gen.cpp"), c.out("gen.o")))
        sh(["clang++", "-o", c.out("gen"), c.out("gen.o"), "-lcppad_lib", "-ldl", "-pthread"])
        for name, mt in (("image0", "none"), ("image2", "pthreads")):
            os.makedirs(c.out(name))
            sh([c.out("gen"), c.out(name), mt])
            build_so(c, c.out(name), c.out(name + ".so"))
        shutil.copyfile(c.out("image0.so"), c.out("image1.so"))
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(main), ex.submit(libs), ex.submit(sh, core_cmd(c, c.sim("life", "loader.cpp"), "loader"))]
        fs += [ex.submit(sh, x) for x in core_cmds(c)]
        for f in fs:
            f.result()
    sh(["clang++", "-rdynamic", "-o", c.out("simulator"), c.out("main.o"), c.out("loader.o"), *[c.out(n + ".o") for n in CORE],
        "-lcppad_lib", "-ldl", "-pthread"])


def build_gen(c):
    """Source generation: the generator itself, instrumented."""
    generated_headers(c.inc)
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(sh, cxx_instr(c, c.sim("gen", "gen_main.cpp"), c.out("main.o"), ["-isystem", "/usr/include/eigen3"]))]
        fs += [ex.submit(sh, x) for x in core_cmds(c)]
        for f in fs:
            f.result()
    sh(["clang++", "-rdynamic", "-o", c.out("simulator"), c.out("main.o"), *[c.out(n + ".o") for n in CORE], "-lcppad_lib", "-ldl", "-pthread"])


BUILDERS = {"gen": build_gen, "life": build_life, "tool": build_tool, "pool": build_pool, "openmp": lambda c: build_pool(c, True)}


def ensure(name):
    """Returns a context with everything built; content-addressed, so a changed tree is always rebuilt."""
    os.makedirs(BUILD, exist_ok=True)
    c = Ctx(name)
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(c.out("done")):
            return c
        for old in glob.glob(os.path.join(BUILD, name + "-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(c.inc)
        t = time.time()
        BUILDERS[name](c)
        open(c.out("done"), "w").write("%.1f\n" % (time.time() - t))
    return c


if __name__ == "__main__":
    for n in sys.argv[1:]:
        try:
            t = time.time()
            print(ensure(n).dir, "%.1fs" % (time.time() - t))
        except BuildError as e:
            print(e)
            sys.exit(3)
