"""Builds the simulator executables from /repo's working tree.

The code under test is compiled exactly as it is; system interfaces are renamed in the object files."""
import hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
SIM_SRC = ["core.cc", "sched.cc", "kernel.cc", "oracle.cc", "ops.cc", "gen.cc", "main.cc"]

# overrides on top of config/<base>.mk
CONFIGS = {
    "default": ("default", {}),
    "light": ("light", {}),
    "stats": ("default", {"CONFIG_STATS": "true"}),
    "lightstats": ("light", {"CONFIG_STATS": "true", "CONFIG_CLASS_REGION_SIZE": "1073741824"}),
    "seal": ("default", {"CONFIG_SEAL_METADATA": "true"}),
    "sealstats": ("light", {"CONFIG_SEAL_METADATA": "true", "CONFIG_STATS": "true"}),
    "plain": ("light", {"CONFIG_ZERO_ON_FREE": "false", "CONFIG_SLAB_CANARY": "false"}),
    "dirty": ("default", {"CONFIG_ZERO_ON_FREE": "false", "CONFIG_WRITE_AFTER_FREE_CHECK": "false", "CONFIG_N_ARENA": "2"}),
    "small": ("default", {"CONFIG_CLASS_REGION_SIZE": "1048576", "CONFIG_N_ARENA": "1", "CONFIG_REGION_QUARANTINE_RANDOM_LENGTH": "4", "CONFIG_REGION_QUARANTINE_QUEUE_LENGTH": "8"}),
    "tinyq": ("default", {"CONFIG_REGION_QUARANTINE_RANDOM_LENGTH": "4", "CONFIG_REGION_QUARANTINE_QUEUE_LENGTH": "8", "CONFIG_REGION_QUARANTINE_SKIP_THRESHOLD": "1048576", "CONFIG_FREE_SLABS_QUARANTINE_RANDOM_LENGTH": "2", "CONFIG_GUARD_SLABS_INTERVAL": "4", "CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH": "2", "CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH": "0"}),
    "noext": ("default", {"CONFIG_EXTENDED_SIZE_CLASSES": "false", "CONFIG_LARGE_SIZE_CLASSES": "false", "CONFIG_N_ARENA": "1", "CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH": "0", "CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH": "2", "CONFIG_REGION_QUARANTINE_RANDOM_LENGTH": "0", "CONFIG_REGION_QUARANTINE_QUEUE_LENGTH": "4"}),
    "noq": ("light", {"CONFIG_REGION_QUARANTINE_RANDOM_LENGTH": "3", "CONFIG_REGION_QUARANTINE_QUEUE_LENGTH": "0", "CONFIG_FREE_SLABS_QUARANTINE_RANDOM_LENGTH": "0", "CONFIG_SLOT_RANDOMIZE": "true", "CONFIG_GUARD_SIZE_DIVISOR": "8", "CONFIG_WRITE_AFTER_FREE_CHECK": "true", "CONFIG_N_ARENA": "16", "CONFIG_CLASS_REGION_SIZE": "1073741824"}),
    "bigq": ("default", {"CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH": "8", "CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH": "0", "CONFIG_N_ARENA": "1", "CONFIG_CLASS_REGION_SIZE": "1073741824"}),
    "noself": ("default", {"CONFIG_SELF_INIT": "false"}),
    "mte": ("default", {"MTE": "1"}),
    # as built for Android: with names for mappings
    # the build for Android, with the options from Android.bp and bionic's extra entry points; with and without memory tagging
    "android": ("android", {"LABEL": "1"}),
    "androidmte": ("android", {"MTE": "1"}),
    "label": ("default", {"LABEL": "1", "CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH": "0", "CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH": "1", "CONFIG_REGION_QUARANTINE_RANDOM_LENGTH": "4", "CONFIG_REGION_QUARANTINE_QUEUE_LENGTH": "4"}),
}

REDEF = """mmap munmap mprotect mremap madvise prctl pkey_alloc pkey_free pkey_set pkey_get pkey_mprotect sysconf
pthread_atfork pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once
sched_yield mallopt getrandom getentropy write writev abort exit _exit raise memcpy memset memmove memcmp explicit_bzero syscall""".split()
# wrappers of system calls the allocator has no business making: the simulator reports their use
FOREIGN_CALLS = """brk sbrk open open64 openat creat read pread readv close ioctl fcntl nanosleep usleep sleep clock_nanosleep poll select mlock munlock mlock2
mincore msync posix_madvise fork vfork kill tgkill pthread_kill pthread_create sigaction signal sigprocmask pthread_sigmask getpid getppid gettid getuid
pipe dup dup2 socket sendto setrlimit getrlimit prlimit sysinfo memfd_create shm_open mbind execve sched_getcpu sched_setaffinity sched_getaffinity
lseek stat fstat access unlink mremap64 fopen fclose fread setpriority personality getcpu munlockall mlockall process_madvise""".split()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def parse_mk(path):
    d = {}
    for line in open(path):
        m = re.match(r"\s*(CONFIG_\w+)\s*:=\s*([^#\s]*)", line)
        if m:
            d[m.group(1)] = m.group(2)
    return d


def config_values(name):
    base, over = CONFIGS[name]
    d = parse_mk(os.path.join(REPO, "config", ("default" if base == "android" else base) + ".mk"))
    if base == "android":
        bp = dict(re.findall(r'"-D(\w+)=(\w+)"', open(os.path.join(REPO, "Android.bp")).read()))
        for k, v in repo_build_info()[1]:
            if k in bp:
                d[v] = bp[k]
        d["ANDROID"] = "1"
    d.update(over)
    return d


def repo_build_info():
    mk = open(os.path.join(REPO, "Makefile")).read()
    m = re.search(r"^SOURCES\s*:=\s*(.*)$", mk, re.M)
    srcs = m.group(1).split() + ["new.cc"]
    defs = re.findall(r"-D(\w+)=\$\((\w+)\)", mk)
    return srcs, defs


def repo_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = [d for d in sorted(dirs) if d not in (".git", "test", "androidtest") and not d.startswith("out")]
        for f in sorted(fs):
            if f.endswith((".c", ".h", ".cc", ".mk", ".bp")) or f == "Makefile":
                files.append(os.path.join(root, f))
    for f in files:
        h.update(f.encode()); h.update(b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()


def sim_hash():
    h = hashlib.sha256()
    for root, dirs, fs in sorted(os.walk(SIM)):
        for f in sorted(fs):
            h.update(f.encode()); h.update(open(os.path.join(root, f), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()


def b(v):
    return "true" if v in ("true", "1", 1, True) else "false"


def cfg_cc(name, d):
    return ('#include "sim.h"\nextern const Cfg CFG;\nconst Cfg CFG = {"%s", %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s, %s};\n' % (
        name, b(d["CONFIG_ZERO_ON_FREE"]), b(d["CONFIG_WRITE_AFTER_FREE_CHECK"]), b(d["CONFIG_SLOT_RANDOMIZE"]), b(d["CONFIG_SLAB_CANARY"]),
        d["CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH"], d["CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH"], b(d["CONFIG_EXTENDED_SIZE_CLASSES"]), b(d["CONFIG_LARGE_SIZE_CLASSES"]),
        d["CONFIG_GUARD_SLABS_INTERVAL"], d["CONFIG_GUARD_SIZE_DIVISOR"], d["CONFIG_REGION_QUARANTINE_RANDOM_LENGTH"], d["CONFIG_REGION_QUARANTINE_QUEUE_LENGTH"],
        d["CONFIG_REGION_QUARANTINE_SKIP_THRESHOLD"], d["CONFIG_FREE_SLABS_QUARANTINE_RANDOM_LENGTH"], d["CONFIG_CLASS_REGION_SIZE"] + "ull", d["CONFIG_N_ARENA"],
        b(d["CONFIG_STATS"]), b(d["CONFIG_SELF_INIT"]), b(d["CONFIG_SEAL_METADATA"]), b(d.get("MTE", "false")), b(d.get("ANDROID", "false")), b(d.get("LABEL", "false"))))


def build_core(outdir):
    os.makedirs(outdir, exist_ok=True)
    def one(f):
        o = os.path.join(outdir, f + ".o")
        if not os.path.exists(o):
            run(["g++", "-std=c++17", "-O2", "-g1", "-fno-pie", "-c", os.path.join(SIM, f), "-o", o + ".tmp"])
            os.rename(o + ".tmp", o)
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, SIM_SRC))


def build_sut(name, d, work):
    srcs, defs = repo_build_info()
    flags = ["-O2", "-g1", "-fno-pie", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove", "-fno-builtin-memcmp", "-fsanitize=thread", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-fno-strict-aliasing",
             "-DH_MALLOC_PREFIX", "-D_GNU_SOURCE", "-I", os.path.join(REPO, "include"), "-I", REPO, "-w"]
    flags += ["-D%s=%s" % (k, d[v]) for k, v in defs if v in d]
    if b(d.get("MTE", "false")) == "true":
        flags += ["-DHAS_ARM_MTE", "-DPROT_MTE=0x20", "-include", os.path.join(SIM, "mte_stub.h")]
    if b(d.get("ANDROID", "false")) == "true":
        flags += ["-I", os.path.join(SIM, "android"), "-include", os.path.join(SIM, "android", "droid.h")]
    if b(d.get("LABEL", "false")) == "true":
        flags += ["-DLABEL_MEMORY"]
    objs = []
    def one(s):
        o = os.path.join(work, s + ".o")
        cc = ["g++", "-std=c++17", "-fsized-deallocation"] if s.endswith(".cc") else ["gcc", "-std=c17"]
        run(cc + flags + ["-c", os.path.join(REPO, s), "-o", o])
        # the interface of the stream cipher is a seam between source files
        u = [l.split()[0] for l in run(["nm", "-f", "posix", "-u", o]).splitlines() if re.match(r"chacha_(keysetup|ivsetup|keystream_bytes) ", l)]
        if u:
            run(["objcopy"] + ["--redefine-sym=%s=sim_%s" % (n, n) for n in u] + [o])
        return o
    with ThreadPoolExecutor(4) as ex:
        objs = list(ex.map(one, srcs))
    # per object: make every undefined system symbol a simulator symbol
    rel = os.path.join(work, "sut0.o")
    run(["ld", "-r", "-o", rel] + objs)
    syms = run(["nm", "-f", "posix", rel])
    redef = []
    keep = []
    for line in syms.splitlines():
        p = line.split()
        n, t = p[0], p[1]
        if t == "U":
            if n in FOREIGN_CALLS:
                redef.append((n, "sim_x_" + n))
            elif n == "mmap64":
                redef.append((n, "sim_mmap"))
            elif n in REDEF:
                redef.append((n, "sim_" + n))
            elif n == "_ZSt15get_new_handlerv":
                redef.append((n, "sim_get_new_handler"))
            elif re.match(r"_Z(n[wa]|d[la])", n):
                redef.append((n, "sut_" + n))
        elif re.match(r"_Z(n[wa]|d[la])", n):
            redef.append((n, "sut_" + n)); keep.append("sut_" + n)
        elif (n.startswith("h_") or re.match(r"(chacha_|get_random_|random_state_)", n)) and t in "TW":
            keep.append(n)
    secs = re.findall(r"^\s*\d+\s+(\S+)\s", run(["objdump", "-h", rel]), re.M)
    args = ["objcopy"]
    for a, c in redef:
        args.append("--redefine-sym=%s=%s" % (a, c))
    done = set()
    for s in secs:
        if s in done:
            continue
        done.add(s)
        if s == ".bss" or s.startswith(".bss."):
            args.append("--rename-section=%s=sutbss" % s)
        elif s == ".data" or (s.startswith(".data.") and not s.startswith(".data.rel.ro")):
            args.append("--rename-section=%s=sutdata" % s)
        elif s == ".init_array.00099":
            args.append("--remove-section=.init_array.00099"); args.append("--remove-section=.rela.init_array.00099")
        elif s.startswith(".init_array") or s.startswith(".ctors"):
            args.append("--rename-section=%s=sutinit,alloc,load,data,contents" % s)
    out1 = os.path.join(work, "sut1.o")
    run(args + [rel, out1])
    kf = os.path.join(work, "keep")
    open(kf, "w").write("\n".join(keep) + "\n")
    out2 = os.path.join(work, "sut.o")
    run(["objcopy", "--keep-global-symbols=" + kf, out1, out2])
    return out2


def build_exe(name, rh=None, sh=None):
    """returns the path of the simulator executable for one configuration"""
    rh = rh or repo_hash(); sh = sh or sim_hash()
    d = config_values(name)
    key = hashlib.sha256((rh + sh + name + repr(sorted(d.items()))).encode()).hexdigest()[:20]
    exedir = os.path.join(BUILD, "exe"); os.makedirs(exedir, exist_ok=True)
    exe = os.path.join(exedir, "sim-%s-%s" % (name, key))
    if os.path.exists(exe):
        return exe
    core = build_core(os.path.join(BUILD, "core-" + sh[:16]))
    work = tempfile.mkdtemp(prefix="w-%s-" % name, dir=BUILD)
    try:
        sut = build_sut(name, d, work)
        cc = os.path.join(work, "cfg.cc"); open(cc, "w").write(cfg_cc(name, d))
        co = os.path.join(work, "cfg.o")
        run(["g++", "-std=c++17", "-O1", "-fno-pie", "-I", SIM, "-c", cc, "-o", co])
        tmp = exe + ".tmp%d" % os.getpid()
        run(["g++", "-no-pie", "-g1", "-o", tmp, co, sut] + core)
        os.rename(tmp, exe)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return exe


def build_many(names):
    rh, sh = repo_hash(), sim_hash()
    build_core(os.path.join(BUILD, "core-" + sh[:16]))
    with ThreadPoolExecutor(8) as ex:
        return dict(zip(names, ex.map(lambda n: build_exe(n, rh, sh), names)))


def gc(keep=60):
    """old executables are not needed"""
    d = os.path.join(BUILD, "exe")
    if not os.path.isdir(d):
        return
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
    for f in fs[:-keep]:
        try: os.unlink(f)
        except OSError: pass


if __name__ == "__main__":
    for n, e in build_many(sys.argv[1:] or list(CONFIGS)).items():
        print(n, e)
