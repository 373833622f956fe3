"""Build the monitors from /repo's working tree, run them, judge, report."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
JOBS = max(2, min(8, os.cpu_count() or 2))

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:allocator_may_return_null=1:max_allocation_size_mb=3000:"
                    "malloc_context_size=10:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "LSAN_OPTIONS": "exitcode=98:print_suppressions=0",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:ignore_noninstrumented_modules=1",
}

VARIANTS = {
    "o3": "-std=gnu++11 -O3 -g1 -fPIC -w",
    "asan": "-std=gnu++11 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize-recover=all -fno-sanitize=nonnull-attribute -D_GLIBCXX_ASSERTIONS -fPIC -w",
    "tsan": "-std=gnu++11 -O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -fPIC -w",
    "o0": "-std=gnu++11 -O0 -g -fPIC -w",
    "o2": "-std=gnu++11 -O2 -g1 -fPIC -w",
}


EXIT = ("-include", os.path.join(VERIF, "harness", "exit.h"))


class HarnessError(Exception):
    """The check itself failed: neither a pass nor a violation."""


def cpp(pattern):
    return sorted(glob.glob(os.path.join(REPO, pattern), recursive=True))


def has_main(path):
    with open(path, errors="replace") as f:
        return re.search(r"\bint\s+main\s*\(", f.read()) is not None


def lib_sources():
    return cpp("lib/**/*.cpp")


def op_sources():
    """The operations, each in its own module: name -> sources."""
    def not_test(fs):
        return [f for f in fs if "/test/" not in f and not has_main(f)]
    return {
        "eni_reverse": not_test(cpp("examples/eni/reverse/**/*.cpp")),
        "eni_json": not_test(cpp("examples/eni/json/**/*.cpp")),
        "eni_crypto": not_test(cpp("tools/eni_crypto/**/*.cpp")),
        "eni_scrypt": not_test(cpp("tools/eni_scrypt/**/*.cpp")),
    }


OP_LIBS = {"eni_crypto": ["-lssl", "-lcrypto"], "eni_scrypt": ["-lcrypto"]}


def tree_hash():
    h = hashlib.sha256()
    for top in ("include", "lib", "tools", "examples"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".cpp", ".tcc", ".inc", ".c", ".hpp", ".cc")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*"))):
        with open(f, "rb") as fh:
            h.update(f.encode())
            h.update(fh.read())
    return h.hexdigest()[:16]


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise HarnessError("command failed (%d): %s\n%s" % (
            p.returncode, " ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout


class Builder:
    """Objects and programs of one tree, under .build/<hash of the tree>."""

    def __init__(self):
        self.key = tree_hash()
        self.dir = os.path.join(BUILD, self.key)
        # only the current tree's output is kept
        if os.path.isdir(BUILD):
            for d in os.listdir(BUILD):
                if d != self.key and not d.startswith("keep"):
                    p = os.path.join(BUILD, d)
                    if time.time() - os.path.getmtime(p) > 3 * 3600:
                        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "deps", "jsmn"), exist_ok=True)
        link = os.path.join(self.dir, "deps", "jsmn", "jsmn.h")
        if not os.path.lexists(link):
            try:
                os.symlink("/usr/include/jsmn.h", link)
            except FileExistsError:
                pass
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.futures = {}

    def inc(self):
        r = ["-I" + os.path.join(REPO, p) for p in
             ("include/eni", "tools/eni_crypto", "tools/eni_scrypt", "tools/eni_cli")]
        return r + ["-isystem", os.path.join(self.dir, "deps"), "-I" + os.path.join(VERIF, "harness")]

    def obj(self, variant, src, extra=()):
        name = "%s-%s-%s.o" % (variant, os.path.basename(src),
                               hashlib.sha256((src + " ".join(extra)).encode()).hexdigest()[:10])
        out = os.path.join(self.dir, name)
        if out not in self.futures:
            self.futures[out] = self.pool.submit(self._compile, variant, src, extra, out)
        return out

    def _compile(self, variant, src, extra, out):
        if os.path.exists(out):
            return
        tmp = "%s.%d.tmp" % (out, os.getpid())
        sh(["g++"] + VARIANTS[variant].split() + list(extra) + self.inc() + ["-c", src, "-o", tmp])
        os.replace(tmp, out)

    def link(self, variant, name, objs, libs=(), flags=()):
        out = os.path.join(self.dir, "%s-%s" % (variant, name))
        for o in objs:
            if o in self.futures:
                self.futures[o].result()
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid())
            san = [f for f in VARIANTS[variant].split() if f.startswith("-fsanitize")]
            sh(["g++"] + san + list(flags) + ["-o", tmp] + objs + list(libs))
            os.replace(tmp, out)
        return out

    # -- the programs -------------------------------------------------------
    def host(self, variant="asan"):
        srcs = lib_sources() + sum(op_sources().values(), [])
        objs = [self.obj(variant, s, EXIT) for s in srcs]
        objs.append(self.obj(variant, os.path.join(VERIF, "harness", "host.cpp")))
        return self.link(variant, "host", objs, ["-lssl", "-lcrypto"])

    PARTS = {"hash": 5}

    def harness(self, name, variant="asan", extra=(), libs=(), flags=(), ops=False, cov=False):
        """A C++ monitor of harness/; cov: the flags in extra are for the code under test, not for the monitor."""
        lx, hx = (tuple(extra), ()) if cov else ((), tuple(extra))
        objs = [self.obj(variant, s, lx) for s in lib_sources()]
        if ops:
            objs += [self.obj(variant, s, lx) for s in sum(op_sources().values(), [])]
            libs = list(libs) + ["-lssl", "-lcrypto"]
        src = os.path.join(VERIF, "harness", name + ".cpp")
        for p in range(self.PARTS.get(name, 1)):
            objs.append(self.obj(variant, src, hx + (("-DPART=%d" % p,) if name in self.PARTS else ())))
        tag = hashlib.sha256(" ".join(list(extra) + list(flags)).encode()).hexdigest()[:6]
        return self.link(variant, name + "-" + tag, objs, libs, flags)

    def cli(self, variant="o0"):
        """libeni.so, the operation modules, eni_run and eni_gas as users have them."""
        d = os.path.join(self.dir, "cli-" + variant)
        os.makedirs(d, exist_ok=True)
        libobjs = [self.obj(variant, s) for s in lib_sources()]
        mods = {m: [self.obj(variant, s) for s in srcs] for m, srcs in op_sources().items()}
        clis = cpp("tools/eni_cli/**/*.cpp")
        clis = [c for c in clis if "/test/" not in c]
        mains = {m: os.path.join(REPO, "tools/eni_cli/%s.cpp" % m) for m in ("eni_run", "eni_gas")}
        common = [self.obj(variant, c) for c in clis if not has_main(c)]
        mainobjs = {m: self.obj(variant, s) for m, s in mains.items()}
        so = self._link_to(variant, os.path.join(d, "libeni.so"), libobjs, [], ["-shared"])
        res = {"dir": d, "libeni": so}
        for m, objs in mods.items():
            res[m] = self._link_to(variant, os.path.join(d, m + ".so"), objs,
                                   ["-L" + d, "-leni"] + OP_LIBS.get(m, []), ["-shared", "-Wl,-rpath," + d])
        for m, o in mainobjs.items():
            res[m] = self._link_to(variant, os.path.join(d, m), [o] + common,
                                   ["-L" + d, "-leni", "-ldl"], ["-Wl,-rpath," + d])
        return res

    def module(self, variant, name, src, libs=()):
        d = os.path.join(self.dir, "cli-" + variant)
        os.makedirs(d, exist_ok=True)
        o = self.obj(variant, src)
        return self._link_to(variant, os.path.join(d, name + ".so"), [o], list(libs), ["-shared"])

    def preload(self, name):
        out = os.path.join(self.dir, name + "-preload.so")
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid())
            sh(["gcc", "-O1", "-fPIC", "-shared", "-w", os.path.join(VERIF, "harness", name + ".c"), "-o", tmp, "-ldl"])
            os.replace(tmp, out)
        return out

    def _link_to(self, variant, out, objs, libs, flags):
        for o in objs:
            self.futures[o].result()
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid())
            san = [f for f in VARIANTS[variant].split() if f.startswith("-fsanitize")]
            sh(["g++"] + san + flags + ["-o", tmp] + objs + libs)
            os.replace(tmp, out)
        return out


_builder = None


def builder():
    global _builder
    if _builder is None:
        _builder = Builder()
    return _builder


# -- records ------------------------------------------------------------------
def b(x):
    return x if isinstance(x, bytes) else str(x).encode("utf-8", "surrogateescape")


def pack(fields):
    out = [struct.pack("<I", len(fields))]
    for f in fields:
        f = b(f)
        out.append(struct.pack("<I", len(f)))
        out.append(f)
    return b"".join(out)


def unpack(data):
    res, o = [], 0
    while o + 4 <= len(data):
        n, = struct.unpack_from("<I", data, o)
        o += 4
        fs = []
        for _ in range(n):
            if o + 4 > len(data):
                return res
            k, = struct.unpack_from("<I", data, o)
            o += 4
            if o + k > len(data):
                return res
            fs.append(data[o:o + k])
            o += k
        res.append(fs)
    return res


class Crash:
    """What ended the process that ran a case."""

    def __init__(self, kind, log):
        self.kind, self.log = kind, log

    def __repr__(self):
        return "Crash(%s)" % self.kind


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+|\()")


def classify(rc, log):
    """-> (kind, one line)"""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", log)
    if m:
        kind = "asan-" + m.group(1)
    elif "ERROR: LeakSanitizer" in log:
        kind = "leak"
    elif "WARNING: ThreadSanitizer" in log or "ThreadSanitizer:" in log:
        m = re.search(r"ThreadSanitizer: ([\w -]+?) \(", log)
        kind = "tsan-" + (m.group(1).replace(" ", "-") if m else "report")
    elif "runtime error:" in log:
        m = re.search(r"runtime error: ([^\n]{0,60})", log)
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|\d+|'[^']*'", "", m.group(1)).lower()).strip("-")[:40]
    elif "WATCHDOG" in log:
        kind = "hang"
    elif "Assertion '" in log:
        kind = "libstdc++-assertion"
    elif "terminate called" in log:
        kind = "uncaught-exception"
    elif rc is None:
        kind = "timeout"
    elif rc < 0:
        kind = "signal-%d" % -rc
    else:
        kind = "exit-%d" % rc
    fr = [f for f in FRAME.findall(log) if "/repo/" in f[1] or REPO in f[1]]
    where = ""
    if fr:
        where = " in " + re.sub(r"\(.*", "", fr[0][0])[:80]
    return kind, kind + where


def clip(s, n=5000):
    return s if len(s) <= n else s[:n // 2] + "\n...\n" + s[-n // 2:]


# -- the host -----------------------------------------------------------------
def _host_once(exe, cases, env, timeout, launch=()):
    d = tempfile.mkdtemp(prefix="vf")
    try:
        fin, fout = os.path.join(d, "in"), os.path.join(d, "out")
        with open(fin, "wb") as f:
            for c in cases:
                f.write(pack(c))
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env or {})
        try:
            p = subprocess.run(list(launch) + [exe, fin, fout], env=e, cwd=d, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
            rc, log = p.returncode, p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as ex:
            rc, log = None, (ex.stderr or b"").decode(errors="replace")
        out = b""
        if os.path.exists(fout):
            with open(fout, "rb") as f:
                out = f.read()
        return rc, log, unpack(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


_hangs = 0      # confirmed in this run; each costs a minute or more, so a few are enough


def host_chunk(exe, cases, env=None, timeout=600, crashes_max=8, launch=()):
    """Results of the cases, a Crash for those that ended the process.
    A leak found when the process ended is returned as the second value."""
    global _hangs
    results, leak, crashes = [], None, 0
    while len(results) < len(cases):
        todo = cases[len(results):]
        rc, log, out = _host_once(exe, todo, env, timeout, launch)
        if rc in (9,):
            raise HarnessError("host failed: " + log[-2000:])
        results += out
        if len(out) == len(todo):
            if rc != 0:
                kind, line = classify(rc, log)
                if kind == "leak":
                    leak = leak or log
                else:
                    leak = leak or ("at exit: " + log)
            break
        kind, line = classify(rc, log)
        if kind in ("hang", "timeout"):
            # inconclusive until the case alone, with plenty of CPU time, hangs as well
            rc1, log1, out1 = _host_once(exe, todo[len(out):len(out) + 1],
                                         dict(env or {}, VERIF_CASE_CPU=str(max(60, 3 * int((env or {}).get("VERIF_CASE_CPU", 20))))),
                                         900, launch)
            if len(out1) == 1:
                results.append(out1[0])
                continue
            kind, line = classify(rc1, log1)
            log = log1
            if kind == "timeout":
                raise HarnessError("a case got no CPU time")
            _hangs += 1
        results.append(Crash(line, log))
        crashes += 1
        if crashes >= crashes_max or _hangs >= 3:
            results += [None] * (len(cases) - len(results))
    return results, leak


def host_run(cases, variant="asan", env=None, timeout=600, chunk=None, launch=(), sizes=None):
    """Run all the cases on parallel hosts; -> results, [(cases of one host, leak log)]
    sizes: how many of the cases, one group after the other, stay next to each other on one host"""
    exe = builder().host(variant)
    cases = list(cases)
    n = chunk or max(1, min(2000, (len(cases) + JOBS * 4 - 1) // (JOBS * 4)))
    k = max(1, (len(cases) + n - 1) // n)
    if sizes:
        parts, at = [[] for _ in range(k)], 0
        for i, m in enumerate(sizes):
            parts[i % k] += range(at, at + m)
            at += m
    else:
        parts = [range(i, len(cases), k) for i in range(k)]     # expensive neighbours go to different hosts
    with cf.ThreadPoolExecutor(JOBS) as pool:
        rs = list(pool.map(lambda p: host_chunk(exe, [cases[i] for i in p], env, timeout, launch=launch), parts))
    results, leaks = [None] * len(cases), []
    for part, (r, leak) in zip(parts, rs):
        for i, x in zip(part, r):
            results[i] = x
        if leak:
            leaks.append(([cases[i] for i in part], leak))
    return results, leaks


def locales():
    """Environments of the host with other locales: digits in groups of three and of one, and bytes from 0x80 on as letters."""
    env = [{"VERIF_LOCALE": "C.UTF-8", "VERIF_GROUPING": "3"}]
    d = os.path.join(BUILD, "locale")
    out = os.path.join(d, "de_DE.ISO-8859-1")
    if not os.path.exists(out) and shutil.which("localedef"):
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, "tmp%d" % os.getpid())
        subprocess.run(["localedef", "-i", "de_DE", "-f", "ISO-8859-1", tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(os.path.join(tmp, "LC_CTYPE")):
            try:
                os.rename(tmp, out)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
    if os.path.exists(out):
        env.append({"LOCPATH": d, "VERIF_LOCALE": "de_DE.ISO-8859-1", "VERIF_GROUPING": "1"})
    else:
        env.append({"VERIF_LOCALE": "C", "VERIF_GROUPING": "1"})
    return env


def find_leaker(cases, variant="asan", env=None):
    """The single case that leaks, by bisection (None if none does alone)."""
    exe = builder().host(variant)

    def leaks(cs):
        r, leak = host_chunk(exe, cs, env)
        return leak
    while len(cases) > 1:
        h = len(cases) // 2
        if leaks(cases[:h]):
            cases = cases[:h]
        elif leaks(cases[h:]):
            cases = cases[h:]
        else:
            return None
    return cases[0] if cases and leaks(cases) else None


# -- C++ monitors -------------------------------------------------------------
def harness_run(exe, seed, count, mode="", size=0, env=None, shards=None, timeout=800, watchdog=20, per=None):
    """Run cases 0..count-1 of a harness on parallel processes.
    -> (stats, [failure dict])"""
    shards = shards or JOBS
    per = per or (count + shards - 1) // shards
    parts = [(i, min(per, count - i)) for i in range(0, count, per)]
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(env or {})

    def once(first, n, wd):
        d = tempfile.mkdtemp(prefix="vf")
        prog = os.path.join(d, "progress")
        cmd = [exe, "--seed", str(seed), "--first", str(first), "--count", str(n), "--watchdog", str(wd),
               "--progress", prog, "--size", str(size)] + (["--mode", mode] if mode else [])
        try:
            try:
                p = subprocess.run(cmd, env=e, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=timeout)
                rc, out, log = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired as ex:
                rc, out, log = None, "", (ex.stderr or b"").decode(errors="replace")
            state, case = "none", first
            if os.path.exists(prog):
                with open(prog) as f:
                    t = f.read().split()
                    if len(t) >= 2:
                        state, case = t[0], int(t[1])
            return rc, out, log, state, case
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(part):
        first, n = part
        stats, fails = [], []
        global _hangs
        while n > 0 and len(fails) < 3 and _hangs < 3:
            rc, out, log, state, case = once(first, n, watchdog)
            m = re.search(r"^STATS (\{.*\})$", out, re.M)
            if m:
                stats.append(json.loads(m.group(1)))
            if rc == 0:
                if not m:
                    raise HarnessError("no STATS from %s" % exe)
                break
            if rc == 9 or state == "none":
                raise HarnessError("harness %s failed (%s): %s" % (exe, rc, log[-3000:]))
            kind, line = classify(rc, log)
            if kind in ("hang", "timeout"):
                rc1, out1, log1, _, _ = once(case, 1, 60)
                if rc1 == 0:
                    n -= case + 1 - first
                    first = case + 1
                    continue
                kind, line = classify(rc1, log1)
                log = log1
                if kind == "timeout":
                    raise HarnessError("a case got no CPU time")
                _hangs += 1
            om = re.search(r"ORACLE case=\d+: (.*)", log)
            if om:
                kind, line = "oracle", om.group(1)
            fails.append({"case": case, "kind": kind, "what": line, "log": clip(log), "mode": mode, "size": size,
                          "state": state, "seed": seed, "harness": os.path.basename(exe)})
            if state == "done":  # a report (a leak) when the process ended
                if n > 1:
                    # which case?
                    lo, k = first, n
                    while k > 1:
                        h = k // 2
                        if once(lo, h, watchdog)[0] != 0:
                            k = h
                        else:
                            lo, k = lo + h, k - h
                    fails[-1]["case"] = lo
                break
            n -= case + 1 - first
            first = case + 1
        return stats, fails

    with cf.ThreadPoolExecutor(shards) as pool:
        rs = list(pool.map(run, parts))
    total = {"distinct": 0, "n": {}, "samples": []}
    fails = []
    for st, fs in rs:
        for s in st:
            total["distinct"] += s["distinct"]
            for k, v in s["n"].items():
                total["n"][k] = max(total["n"].get(k, 0), v) if k.startswith("max") else total["n"].get(k, 0) + v
            total["samples"] += s["samples"]
        fails += fs
    return total, fails


# -- verdicts -----------------------------------------------------------------
def known_findings():
    """finding: property=<id> key=<key> <text>    /   fixed: property=<id> <commit> <text>"""
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m:
                    res[(m.group(1), m.group(2))] = m.group(3).strip()
    return res


class Check:
    def __init__(self, prop, tier, seed, level="exploration"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.viol = {}          # key -> (text, replay data)
        self.known = {}
        self.evaluations = 0
        self.distinct = set()
        self.distinct_extra = 0
        self.samples = []
        self.extra = {}
        self.rule = ""
        self.assumptions = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def seen(self, *what):
        """Count one evaluation; distinct by its content."""
        self.evaluations += 1
        self.distinct.add(hashlib.blake2b(repr(what).encode(), digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 6:
            s = s if isinstance(s, str) else repr(s)
            self.samples.append(s[:400])

    def add(self, k, v=1):
        self.extra[k] = self.extra.get(k, 0) + v

    def violation(self, key, text, data=None):
        key = re.sub(r"[^\w.+:/-]+", "_", key)[:120]
        if (self.prop, key) in known_findings():
            self.known.setdefault(key, known_findings()[(self.prop, key)] + ": " + text)
            return
        if key not in self.viol and len(self.viol) < 20:
            self.viol[key] = (text, data or {})

    def harness(self, exe, count, mode="", size=0, label=None, **kw):
        """Run a C++ monitor and fold in what it saw."""
        total, fails = harness_run(exe, self.seed, count, mode, size, **kw)
        self.evaluations += total["n"].get("cases", 0)
        self.distinct_extra += total["distinct"]
        for s in total["samples"][:4]:
            self.sample(s)
        for k, v in total["n"].items():
            kk = (label or mode or "run") + "." + k
            self.extra[kk] = max(self.extra.get(kk, 0), v) if k.startswith("max") else self.extra.get(kk, 0) + v
        for f in fails:
            key = "%s:%s" % (mode or f["harness"], re.sub(r"\d+", "N", f["what"])[:80])
            self.violation(key, f["what"], f)
        return total

    def host(self, cases, variant="asan", env=None, leaks=True, chunk=None, timeout=600, undefined=False):
        """Run cases on the host; crashes and leaks are violations here as well.
        undefined: the cases may be calls that harness/known.h leaves out."""
        results, leak = host_run(cases, variant, env, timeout, chunk)
        for c, r in zip(cases, results):
            if isinstance(r, Crash):
                self.violation("crash:" + r.kind, "%s on %s" % (r.kind, show(c)),
                               {"case": hexcase(c), "log": clip(r.log)})
            elif r and r[0] == b"?exception":
                self.violation("exception:" + b":".join(b(x) for x in c[:2])[:80].decode(errors="replace"),
                               "uncaught exception %r on %s" % (r[1], show(c)), {"case": hexcase(c)})
            elif r and r[0] == b"?known":
                if undefined:
                    self.add("left out: known finding " + r[1].decode())
                else:
                    self.violation("misread:" + r[1].decode(), "the arguments are read as others than those written: %s" % show(c),
                                   {"case": hexcase(c)})
        if leaks and leak:
            for part, log in leak[:1]:
                c = find_leaker(part, variant, env)
                kind, line = classify(98, log)
                self.violation("leak:" + line, "memory not released%s: %s" % (
                    " by " + show(c) if c else "", line), {"case": hexcase(c) if c else None, "log": clip(log)})
        return results

    def finish(self):
        wall = time.time() - self.t0
        distinct = len(self.distinct) + self.distinct_extra
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": distinct, "rule": self.rule,
                         "samples": self.samples, "observed": self.extra},
            "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.viol),
        }
        if self.known:
            ev["coverage"]["known_findings"] = sorted(self.known)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, t in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, one_line(t)))
        if self.viol:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            for i, (k, (t, d)) in enumerate(sorted(self.viol.items())):
                path = os.path.join(VERIF, "replay", "%s-%d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "key": k, "what": t,
                               "data": d}, f, indent=1, default=repr)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + one_line(t))
            sys.stdout.flush()
            return 1
        if self.evaluations == 0 or distinct < 2:
            raise HarnessError("nothing was observed")
        print("%s %s: held on %d evaluations, %d distinct (%.1f s)" % (
            self.prop, self.tier, self.evaluations, distinct, wall))
        return 0


def one_line(s):
    return " ".join(str(s).split())[:500]


def show(case):
    return " ".join(repr(b(f))[1:][:160] for f in case)[:420]


def hexcase(case):
    return [b(f).hex() for f in case]
