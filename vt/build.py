"""Out-of-tree builds of the tree under test (never writes inside /repo)."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, sysconfig, time
REPO = os.environ.get("VT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CC = "/usr/bin/gcc"

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def csources():
    return sorted(glob.glob(REPO + "/src/*.c"))

def tree_hash(extra=()):
    h = hashlib.sha256()
    fs = []
    for d in ("src", "include", "python", "matlab", "simulink", "demo"):
        for r, ds, ff in os.walk(os.path.join(REPO, d)):
            ds[:] = [x for x in ds if not x.startswith((".", "build", "__"))]
            fs += [os.path.join(r, f) for f in ff if f.endswith((".c", ".h", ".cpp", ".py", ".hpp"))]
    fs += list(extra)
    for r, ds, ff in os.walk(os.path.join(VERIF, "harness")):
        fs += [os.path.join(r, f) for f in ff]
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def builddir():
    d = os.path.join(BUILD, "t-" + tree_hash())
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    olds = sorted(glob.glob(BUILD + "/t-*"), key=os.path.getmtime)
    for o in olds[:-6]:
        if o != d and time.time() - os.path.getmtime(o) > 3600:
            shutil.rmtree(o, ignore_errors=True)
    return d

def target(name, cmd_of):
    """Builds file `name` in the build dir once, atomically; cmd_of(tmp) -> list of commands."""
    d = builddir()
    out = os.path.join(d, name)
    if os.path.exists(out):
        return out
    with open(os.path.join(d, "." + name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = os.path.join(d, ".tmp.%d.%s" % (os.getpid(), name))
        for c in cmd_of(tmp):
            run(c)
        os.rename(tmp, out)
    return out

def objects(tag, flags):
    """Compiles every library source in parallel; returns object list."""
    d = os.path.join(builddir(), "obj-" + tag)
    done = os.path.join(d, "done")
    with open(os.path.join(builddir(), ".obj-" + tag + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        objs = [os.path.join(d, os.path.basename(s)[:-2] + ".o") for s in csources()]
        if not os.path.exists(done):
            os.makedirs(d, exist_ok=True)
            ps = [(s, subprocess.Popen([CC, *flags, "-I" + REPO + "/include", "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
                  for s, o in zip(csources(), objs)]
            for s, p in ps:
                o, _ = p.communicate()
                if p.returncode:
                    raise BuildError("cannot compile %s\n%s" % (s, o[-4000:]))
            open(done, "w").close()
    return objs

FL = ["-O2", "-g", "-fPIC", "-w"]
H = os.path.join(VERIF, "harness")

# internal functions of the library that some checks call directly: result, arguments (i integer, d double, I D arrays of them, S matrix, Q problem)
SIGS = dict(SparseMatrixSetup="v iiiIIDS", SparseMatrixTranspose="v SS", densetosparse="v iiDS", densetosparse_ROWMAJOR="v iiDS", SparseMatrixMultiply="v SDDi", SparseMatrixTransMultiply="v SDDi",
    obj_value="d SDDD", formkktmatrix_U="v SSSS", formkktmatrix_full="v SSSSSS", updatekktmatrix="v SDDDDddiiii", computeresiduals="v Q",
    Transpose_Row_Count="v iiIIII", innerproduct="d DDi", updatevariables="v DDdi", findsteplength="v DDDDiDD", checksign="i DDdi", formrho="d DDDDddi", form_ds="v DDDDddii", updatekktmatrix_b="v DDDDDDiii", formlambda="v DDDi",
    LDL_symbolic="v iIIIIIIII", LDL_numeric="i iIIDIIIIDDDIIII", LDL_cache_numeric="i iIIDIIIIDDDIII", LDL_row_cache_numeric="i iIIDIIIIDDDIII", LDL_lsolve="v iDIID", LDL_dsolve="v iDD", LDL_ltsolve="v iDIID", LDL_perm="v iDDI", LDL_permt="v iDDI",
    LDL_valid_perm="i iII", LDL_valid_matrix="i iII", test_reach="v IIIiii",
    norm="d Di", findminmax="v DiDD")
CT = dict(v="void", i="qp_int", d="qp_real", I="qp_int *", D="qp_real *", S="smat *", Q="QP *")
def missing():
    """Those of SIGS that the tree under test does not export with these types: an internal interface that is not there is not judged."""
    out = os.path.join(builddir(), "missing.txt")
    if not os.path.exists(out):
        objs = objects("O2", FL)
        ex = {l.split()[-1] for l in run(["nm", "-g", "--defined-only", *objs]).splitlines() if len(l.split()) == 3}
        decl = ""                                           # declared in no header
        for c in csources():
            aux = os.path.join(builddir(), ".aux.%d" % os.getpid())
            if not re.search(r"\b(norm|findminmax)\s*\(", open(c, errors="replace").read()): continue
            run([CC, "-w", "-I" + REPO + "/include", "-fsyntax-only", "-aux-info", aux, c]); decl += "".join(l[l.index("extern"):l.index(";") + 1] + "\n" for l in open(aux, errors="replace") if re.search(r":N[FC] \*/ extern .*\b(norm|findminmax) \(", l)); os.unlink(aux)
        def fits(names, k=[0]):
            k[0] += 1; c = os.path.join(builddir(), ".probe.%d.%d.c" % (os.getpid(), k[0]))
            with open(c, "w") as f:
                f.write('#include "qpSWIFT.h"\n#include "ldl.h"\n' + decl)
                for n in names:
                    r, a = SIGS[n].split(); args = ["%s a%d" % (CT[x], i) for i, x in enumerate(a)]
                    f.write("%s probe_%s(%s) { %s%s(%s); }\n" % (CT[r], n, ", ".join(args), "" if r == "v" else "return ", n, ", ".join("a%d" % i for i in range(len(a)))))
            try: run([CC, "-fsyntax-only", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=float-conversion", "-Werror=implicit-function-declaration", "-I" + REPO + "/include", c]); return True
            except BuildError: return False
            finally: os.unlink(c)
        have = [n for n in SIGS if n in ex]
        if not fits(have): have = [n for n in have if fits([n])]
        tmp = out + ".tmp%d" % os.getpid(); open(tmp, "w").write(" ".join(n for n in SIGS if n not in have)); os.rename(tmp, out)
    return open(out).read().split()
def helpers(): return [H + "/helpers.c", *["-DNO_" + n for n in missing()]]

def lib():
    return target("libqpv.so", lambda t: [[CC, *FL, "-shared", "-I" + REPO + "/include", H + "/shim.c", *helpers(), H + "/amdalloc.c", *objects("O2", FL), "-o", t, "-lm"]])

def lib_wrap():
    w = ["-Wl,--wrap=" + s for s in ("malloc", "calloc", "realloc", "free", "clock_gettime")]
    return target("libqpw.so", lambda t: [[CC, *FL, "-shared", "-I" + REPO + "/include", H + "/shim.c", H + "/wrapalloc.c", *helpers(), *objects("O2", FL), *w, "-o", t, "-lm", "-lpthread"]])

def lib_fail():
    """As lib_wrap, with a factorisation that can be made to fail."""
    w = ["-Wl,--wrap=" + s for s in ("malloc", "calloc", "realloc", "free", "clock_gettime", "LDL_numeric")]
    return target("libqpf.so", lambda t: [[CC, *FL, "-shared", "-I" + REPO + "/include", H + "/shim.c", H + "/wrapalloc.c", H + "/ldlfail.c", *objects("O2", FL), *w, "-o", t, "-lm", "-lpthread"]])

def lib_yield():
    """As lib_wrap, with a yield point at every basic block."""
    w = ["-Wl,--wrap=" + s for s in ("malloc", "calloc", "realloc", "free", "clock_gettime")]
    return target("libqpy.so", lambda t: [[CC, *FL, "-shared", "-I" + REPO + "/include", H + "/shim.c", H + "/wrapalloc.c", *helpers(), *objects("pc", [*FL, "-fsanitize-coverage=trace-pc"]), *w, "-o", t, "-lm", "-lpthread"]])

def pyext(watched=False):
    """The Python extension; watched: with the recording allocator and call counters.  Returns its folder."""
    import numpy
    inc = ["-I" + REPO + "/include", "-I" + numpy.get_include(), "-I" + sysconfig.get_paths()["include"]]
    suf = sysconfig.get_config_var("EXT_SUFFIX")
    d = os.path.join(builddir(), "pyw" if watched else "py")
    os.makedirs(d, exist_ok=True)
    more = [H + "/wrapalloc.c", H + "/pycount.c", *["-Wl,--wrap=" + s for s in ("malloc", "calloc", "realloc", "free", "clock_gettime", "QP_SETUP", "QP_SETUP_dense", "QP_SOLVE", "QP_CLEANUP", "QP_CLEANUP_dense")], "-lpthread"] if watched else []
    so = target(("w-" if watched else "") + "qpSWIFT" + suf, lambda t: [[CC, *FL, "-shared", *inc, REPO + "/python/pyqpSWIFT.c", *objects("O2", FL), *more, "-o", t, "-lm"]])
    link = os.path.join(d, "qpSWIFT" + suf)
    if not os.path.exists(link):
        try: os.symlink(so, link)
        except FileExistsError: pass
    return d

WRAPS = ["-Wl,--wrap=" + s for s in ("malloc", "calloc", "realloc", "free", "clock_gettime", "QP_SETUP", "QP_SETUP_dense", "QP_SOLVE", "QP_CLEANUP", "QP_CLEANUP_dense")]
def nv(src):
    """The number of variables a Simulink block is set to publish (the documented way to change it is to edit this line)."""
    m = re.findall(r"^[ \t]*#[ \t]*define[ \t]+NV[ \t]+(\d+)", open(REPO + "/" + src, newline="").read(), re.M)
    return int(m[0]) if len(m) == 1 else None

def gateway(src, mex, want=None):
    """A MATLAB gateway or Simulink block, against the stand-ins for MATLAB's headers; want: NV set to this."""
    inc = ["-I" + H + "/mex", "-I" + REPO + "/include", "-DMATLAB_MEX_FILE"]; fl = [*FL, *inc]
    if want is not None:
        new = re.sub(r"(?m)^([ \t]*#[ \t]*define[ \t]+NV[ \t]+)\d+", r"\g<1>%d" % want, open(REPO + "/" + src, newline="").read())
        def cmds(t):
            with open(t + ".c", "w", newline="") as f: f.write(new)
            return [[CC, *fl, "-I" + os.path.dirname(REPO + "/" + src), "-shared", t + ".c", H + "/mexmock.c", H + "/wrapalloc.c", H + "/pycount.c", *objects("mex", fl), *WRAPS, "-o", t, "-lm", "-lpthread"], ["rm", "-f", t + ".c"]]
        return target("gw-%s-nv%d.so" % (os.path.basename(src)[:-2], want), cmds)
    return target("gw-" + os.path.basename(src)[:-2] + ".so", lambda t: [[CC, *fl, "-shared", *(["-DX_GATEWAY"] if mex else []), REPO + "/" + src, H + "/mexmock.c", H + "/wrapalloc.c", H + "/pycount.c", *objects("mex", fl), *WRAPS, "-o", t, "-lm", "-lpthread"]])

def java():
    """Compiles the TLC operator overrides; independent of /repo."""
    src = sorted(glob.glob(VERIF + "/spec/java/vt/*.java"))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    out = os.path.join(BUILD, "java-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.java.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            run(["javac", "-nowarn", "-cp", CP, "-d", tmp, *src])
            os.rename(tmp, out)
    return out

if __name__ == "__main__":
    print(java()); print(lib())
