#!/usr/bin/env python3
"""check.py <property>: build from /repo's current tree, explore, write evidence/<property>.json.

exit 0: held on everything explored (known findings are printed); exit 1 + VIOLATION line otherwise.
"""
import ctypes, fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CPPEV_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, os.path.join(HERE, "tools"))
from units import UNITS, ASSUME  # noqa: E402

LIB = ["async_logger", "event_loop_epoll", "ipc", "lock", "nio", "subprocess", "sysconfig", "tcp", "utils"]
CXX = "g++"
# what is read uninitialised has the same value in every execution
INIT = "-ftrivial-auto-var-init=pattern"
SEQ_FLAGS = ["-std=c++17", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=nonnull-attribute,vptr", "-fno-omit-frame-pointer", "--param=asan-use-after-return=0", "-w", INIT]
XS_FLAGS = ["-std=c++17", "-O1", "-g", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-fno-builtin-memcpy",
            "-fno-pie", "-fno-builtin-memset", "-fno-builtin-memmove", "-D_FORTIFY_SOURCE=0", INIT]
RT_FLAGS = ["-std=c++17", "-O2", "-g", "-w", "-fno-pie"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def repo_sources():
    """all library sources of the current tree that make up the Linux build"""
    d = os.path.join(REPO, "src/lib")
    return sorted(os.path.join(d, f) for f in os.listdir(d)
                  if f.endswith((".cc", ".cpp", ".cxx")) and "kqueue" not in f)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def headers():
    out = []
    for base in (os.path.join(REPO, "src"), os.path.join(HERE, "engine"), os.path.join(HERE, "harness")):
        for d, _, fs in os.walk(base):
            out += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".inc", "atomicity.h"))]
    return out


class BuildError(Exception):
    pass


HDR = None


def compile_one(src, flags, incs, tag):
    """object file, cached by the content of the source, all headers and the flags"""
    global HDR
    if HDR is None:
        HDR = digest(headers())
    key = digest([src], HDR + " ".join(flags + incs) + tag)
    obj = os.path.join(BUILD, "obj", os.path.basename(src).replace(".", "_") + "-" + key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d" % os.getpid()
    r = sh([CXX] + flags + incs + ["-c", src, "-o", tmp])
    if r.returncode:
        raise BuildError("cannot compile %s:\n%s" % (src, r.stdout[-4000:]))
    os.rename(tmp, obj)
    return obj


def link(objs, flags, out_name):
    key = digest(objs, " ".join(flags))
    exe = os.path.join(BUILD, out_name + "-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        r = sh([CXX] + objs + flags + ["-o", tmp])
        if r.returncode:
            raise BuildError("cannot link %s:\n%s" % (out_name, r.stdout[-4000:]))
        os.rename(tmp, exe)
    else:
        os.utime(exe)
    return exe


def prune():
    """keep the cache small"""
    for d in (os.path.join(BUILD, "obj"), BUILD):
        if os.path.isdir(d):
            fs = [os.path.join(d, f) for f in os.listdir(d)]
            fs = [f for f in fs if os.path.isfile(f)]
            fs.sort(key=os.path.getmtime)
            old = fs[:-400]
            for f in old:
                if time.time() - os.path.getmtime(f) > 3600:
                    try:
                        os.unlink(f)
                    except OSError:
                        pass


def build(unit, pool):
    kind = unit["kind"]
    H = lambda f: os.path.join(HERE, "harness", f)
    E = lambda f: os.path.join(HERE, "engine", f)
    inc = ["-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "src/include")]
    jobs = []
    name = os.path.splitext(os.path.basename(unit["src"][0]))[0]
    if kind == "seq":
        for s in unit["src"]:
            jobs.append((H(s), SEQ_FLAGS + unit.get("cflags", []), inc))
        jobs.append((E("seq_main.cc"), SEQ_FLAGS, inc))
        for s in repo_sources():
            jobs.append((s, SEQ_FLAGS + unit.get("repo_cflags", []), inc))
        ld = ["-fsanitize=address,undefined", "-rdynamic"] + ["-Wl,--wrap=" + w for w in unit.get("wrap", [])] + ["-lpthread", "-ldl", "-lrt"]
    elif kind == "xs":
        xinc = ["-I" + os.path.join(HERE, "engine/shadow")] + inc
        for s in unit["src"]:
            jobs.append((H(s), XS_FLAGS + unit.get("cflags", []), xinc))
        for s in repo_sources():
            jobs.append((s, XS_FLAGS, xinc))
        for s in ("xs_rt.cc", "xs_explore.cc"):
            jobs.append((E(s), RT_FLAGS, inc))
        ld = ["-no-pie", "-rdynamic"] + ["-Wl,--wrap=" + w for w in ("memcpy", "memset", "memmove")] + unit.get("ldflags", []) + ["-lpthread", "-ldl", "-lrt"]
    elif kind == "plain":
        for s in unit["src"]:
            jobs.append((H(s), ["-std=c++17", "-O1", "-g", "-w", INIT] + unit.get("cflags", []), inc))
        if unit.get("seq_main", False):
            jobs.append((E("seq_main.cc"), ["-std=c++17", "-O1", "-g", "-w", INIT], inc))
        if unit.get("rt"):
            for s in ("xs_rt.cc", "xs_explore.cc"):
                jobs.append((E(s), RT_FLAGS, inc))
        if unit.get("repo", True):
            for s in repo_sources():
                jobs.append((s, ["-std=c++17", "-O1", "-g", "-w", INIT], inc))
        ld = ["-rdynamic"] + ["-Wl,--wrap=" + w for w in unit.get("wrap", [])] + ["-lpthread", "-ldl", "-lrt"]
    objs = list(pool.map(lambda j: compile_one(j[0], j[1], j[2], kind), jobs))
    return link(objs, ld, name)


def build_so(unit):
    """shared libraries a harness loads at run time; their paths go into its environment"""
    env, made = {}, {}
    for item in unit.get("so", []):
        name, deps = item[0], item[1:]
        src = os.path.join(HERE, "harness/so", name + ".c")
        out = os.path.join(BUILD, "lib%s-%s.so" % (name, digest([src], " ".join(deps))))
        if not os.path.exists(out):
            tmp = out + ".%d" % os.getpid()
            r = sh(["gcc", "-O1", "-w", "-shared", "-fPIC", src, "-o", tmp, "-Wl,-soname," + os.path.basename(out)] + [made[d] for d in deps] + ["-Wl,-rpath," + BUILD])
            if r.returncode:
                raise BuildError("cannot build %s:\n%s" % (name, r.stdout[-4000:]))
            os.rename(tmp, out)
        else:
            os.utime(out)
        made[name] = out
        env["SO_" + name] = out
    return env


def known_findings():
    """known_findings.txt: 'known: property=<id> key=<key> <text>' and 'fixed: property=<id> <commit> <text>'"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                f = line[6:].strip().split(None, 2)
                out.append((f[0].split("=", 1)[1], f[1].split("=", 1)[1], f[2] if len(f) > 2 else ""))
    return out


def end_orphans():
    """End what a unit left running (processes the code under test started and lost)."""
    for _ in range(50):
        kids = []
        for d in os.listdir("/proc"):
            try:
                if d.isdigit() and int(open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()[1]) == os.getpid():
                    kids.append(d)
            except OSError:
                pass
        if not kids:
            return
        for k in kids:
            try:
                os.kill(int(k), 9)
                os.waitpid(int(k), 0)
            except OSError:
                pass


def main():
    try:
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)   # PR_SET_CHILD_SUBREAPER
    except OSError:
        pass
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    units = UNITS[pid]
    keys = [(k, t) for (p, k, t) in known_findings() if p == pid]
    results, violation, internal = [], None, None
    with ThreadPoolExecutor(max_workers=int(os.environ.get("JOBS", "8"))) as pool:
        try:
            exes, envs = [], []
            lock = open(os.path.join(BUILD, ".lock"), "w")
            fcntl.flock(lock, fcntl.LOCK_EX)
            prune()
            for u in units:
                exes.append(build(u, pool))
                envs.append(build_so(u))
            fcntl.flock(lock, fcntl.LOCK_UN)
        except BuildError as e:
            print(e)
            print("check %s: the tree does not build" % pid)
            return 2
    for u, exe, so_env in zip(units, exes, envs):
        if tier == "quick" and u.get("thorough_only"):
            continue
        name = os.path.splitext(os.path.basename(u["src"][0]))[0]
        out = os.path.join(BUILD, "%s.%s.json" % (pid, name))
        rep = os.path.join(BUILD, "%s.%s.replay" % (pid, name))
        for f in (out, rep):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [exe, "--out", out, "--replay-out", rep] + u.get("args", []) + u.get("args_" + tier, [])
        if tier == "thorough":
            cmd.append("--deep")
        for k, _ in keys:
            cmd += ["--known", k]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=65536",
                   UBSAN_OPTIONS="print_stacktrace=0", XS_SEED=str(seed), GLIBC_TUNABLES="glibc.malloc.perturb=165", LC_ALL="C", TZ="UTC", **so_env)
        limit = 600 if tier == "quick" else 6 * 3600
        print("== %s: %s" % (name, " ".join(cmd[1:])), flush=True)
        for attempt in (1, 2):
            scratch = tempfile.mkdtemp(prefix="run.", dir=BUILD)
            try:
                p = subprocess.Popen(cmd, env=env, cwd=scratch, start_new_session=True)
                rc = p.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = 124
            finally:
                end_orphans()
                shutil.rmtree(scratch, ignore_errors=True)
            if rc != 3:
                break
            # a failure that does not show in a process of its own: it counts when exploring again meets one again
            print("the failure does not show in a process of its own", "- exploring again" if attempt == 1 else "but it came back", flush=True)
        if rc == 3:
            rc = 1
            if not os.path.exists(rep):
                with open(rep, "w") as f:
                    f.write("only within the exploration: %s\n" % " ".join(cmd))
        res = json.load(open(out)) if os.path.exists(out) else {}
        res["unit"] = name
        res["kind"] = u["kind"]
        results.append(res)
        if rc == 1:
            violation = (rep, res.get("violation"))
            break
        if rc != 0:
            internal = "%s ended with status %d" % (name, rc)
            break
    # evidence
    ex = sum(r.get("executions", 0) for r in results)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=sum(r.get("states", 0) for r in results),
                            transitions=sum(r.get("transitions", 0) for r in results),
                            traces_validated_against_impl=sum(r.get("validated", r.get("executions", 0)) for r in results),
                            evaluations=ex,
                            samples=[s for r in results for s in r.get("samples", [])][:16] or ["none"],
                            exhaustive=bool(results) and all(r.get("complete") for r in results) and not violation and not internal,
                            units=[{k: v for k, v in r.items() if k not in ("samples",)} for r in results]),
              assumptions=ASSUME.get(pid, []) + ASSUME["*"],
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    path = os.path.join(HERE, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path + ".tmp", path)
    for k, text in keys:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if violation:
        v = violation[1] or {}
        print("scenario: %s\nmessage: %s" % (v.get("scenario"), v.get("message")))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(violation[0], HERE)))
        return 1
    if internal:
        print("INTERNAL ERROR: " + internal)
        return 2
    print("held: %s, %d executions, %d states, %d transitions, %.1fs" % (pid, ex, ev["coverage"]["states"], ev["coverage"]["transitions"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
