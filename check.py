#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

    check.py C02                    quick check (or $VERIF_TIER)
    check.py C02 --tier thorough
    check.py C02 --replay FILE      runs the case in a replay file again
    check.py --setup                checks the tools (setup_cmd)
    check.py --build                builds everything

Exit codes: 0: held, 1: VIOLATION, 2: no verdict (harness or build error,
nothing observed, out of time).
"""
import argparse
import concurrent.futures as cf
import fcntl
import hashlib
import json
import mmap
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JOBS = max(2, min(16, os.cpu_count() or 4))

sys.path.insert(0, VERIF)
from checks import CHECKS, PROPERTY_IDS  # noqa: E402

# The harness of C01 has its own versions of these, which check their argument.
CTYPE = ["-fno-builtin-is" + s for s in ("alnum", "alpha", "cntrl", "digit", "graph", "lower", "print",
                                         "punct", "space", "upper", "xdigit", "blank")] + \
        ["-fno-builtin-tolower", "-fno-builtin-toupper", "-D__NO_CTYPE"]
COMMON = ["-std=c++20", "-g1", "-fno-omit-frame-pointer"] + CTYPE
CONFIGS = {
    # Addresses, undefined behaviour and the standard library's own
    # precondition checks.
    "asan": dict(cxx="g++", lib=["-O1", "-fsanitize=address,undefined",
                                 "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
                 harness=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                          "-D_GLIBCXX_ASSERTIONS"]),
    # As asan, plus the debug mode of the standard library (invalid
    # iterators, inconsistent comparison functions...).
    "debug": dict(cxx="g++", lib=["-O1", "-fsanitize=address,undefined",
                                  "-fno-sanitize-recover=all", "-D_GLIBCXX_DEBUG"],
                  harness=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                           "-D_GLIBCXX_DEBUG"]),
    "tsan": dict(cxx="g++", lib=["-O1", "-fsanitize=thread"], harness=["-O1", "-fsanitize=thread"]),
    # Reads of uninitialized memory, with valgrind.
    "memcheck": dict(cxx="g++", lib=["-O1"], harness=["-O1"],
                     wrap=["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes",
                           "--num-callers=20", "--vgdb=no"]),
    "fuzz": dict(cxx="clang++", lib=["-O1", "-fsanitize=fuzzer-no-link,address,undefined",
                                     "-fno-sanitize-recover=all"],
                 harness=["-O1", "-fsanitize=fuzzer,address,undefined",
                          "-fno-sanitize-recover=all", "-DVF_FUZZER"]),
}
# The two-file version the repository's tool makes from the working tree, and
# the one that is in the repository. Only the latter is compared with the model.
CONFIGS["two"] = dict(CONFIGS["asan"], two="made")
CONFIGS["twocommitted"] = dict(CONFIGS["asan"], two="committed",
                               harness=CONFIGS["asan"]["harness"] + ["-DVF_MODEL"])

ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:hard_rss_limit_mb=3500:"
                    "detect_stack_use_after_return=0:strict_string_checks=1:"
                    "allocator_may_return_null=0:malloc_context_size=4:quarantine_size_mb=16",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4",
}


class NoVerdict(Exception):
    pass


class TwoFileFailure(Exception):
    """The two-file version can't be made or compiled."""


class ExampleFailure(Exception):
    """The examples can't be compiled."""


# ---------------------------------------------------------------- building

def read(path):
    with open(path, "rb") as f:
        return f.read()


def walk(top, exts):
    result = []
    for d, dirs, files in os.walk(top):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                result.append(os.path.join(d, f))
    return result


def lib_sources():
    src = walk(os.path.join(REPO, "src"), (".cpp", ".cc", ".cxx"))
    if not src:
        raise NoVerdict("no sources in " + REPO)
    return src


def headers_digest():
    h = hashlib.sha256()
    for top in ("include", "src"):
        for p in walk(os.path.join(REPO, top), (".hpp", ".h", ".in", ".inl", ".ipp")):
            h.update(os.path.relpath(p, REPO).encode() + b"\0" + read(p) + b"\0")
    return h


def make_generated_headers(out):
    """Does what CMake's configure_file does for ArgosVersion.hpp"""
    text = ""
    try:
        text = read(os.path.join(REPO, "CMakeLists.txt")).decode()
    except OSError:
        pass
    m = re.search(r"project\s*\([^)]*?VERSION\s+([0-9.]+)", text, re.S | re.I)
    version = m.group(1) if m else "0.0.0"
    parts = (version.split(".") + ["0", "0", "0"])[:3]
    for p in walk(os.path.join(REPO, "src"), (".in",)) + walk(os.path.join(REPO, "include"), (".in",)):
        t = read(p).decode()
        t = re.sub(r"@\w*VERSION_MAJOR@", parts[0], t)
        t = re.sub(r"@\w*VERSION_MINOR@", parts[1], t)
        t = re.sub(r"@\w*VERSION_PATCH@", parts[2], t)
        t = re.sub(r"@\w*VERSION@", version, t)
        name = os.path.basename(p)[:-3]
        for sub in ("", "Argos"):
            d = os.path.join(out, sub)
            os.makedirs(d, exist_ok=True)
            tmp = os.path.join(d, ".%s.%d" % (name, os.getpid()))
            with open(tmp, "w") as f:
                f.write(t)
            os.replace(tmp, os.path.join(d, name))


def make_two_files(out):
    """Runs the script that makes the two-file version, as CMake does, on a
    copy of the working tree. Returns the directory of the files."""
    scratch = out + ".%d.tmp" % os.getpid()
    shutil.rmtree(scratch, ignore_errors=True)
    source, binary = os.path.join(scratch, "source"), os.path.join(scratch, "binary")
    try:
        for top in ("include", "src", "tools"):
            shutil.copytree(os.path.join(REPO, top), os.path.join(source, top))
        os.makedirs(os.path.join(source, "single_src", "Argos"))
        os.makedirs(binary)
        # What CMake leaves there
        make_generated_headers(os.path.join(scratch, "gen"))
        for f in os.listdir(os.path.join(scratch, "gen")):
            path = os.path.join(scratch, "gen", f)
            if os.path.isfile(path):
                shutil.copy(path, binary)
        script = read(os.path.join(source, "tools/make_single_src/make_argos_cpp.sh.in")).decode()
        for k, v in (("Python3_EXECUTABLE", sys.executable), ("CMAKE_CURRENT_SOURCE_DIR", source),
                     ("CMAKE_CURRENT_BINARY_DIR", binary)):
            script = script.replace("${%s}" % k, v).replace("@%s@" % k, v)
        path = os.path.join(binary, "make_argos_cpp.sh")
        with open(path, "w") as f:
            f.write(script)
        r = subprocess.run(["sh", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=binary, timeout=120,
                           env=dict(os.environ, LC_ALL="C.UTF-8"))
        result = os.path.join(source, "single_src")
        for f in ("Argos.hpp", "Argos.cpp"):
            if r.returncode or not os.path.isfile(os.path.join(result, "Argos", f)):
                raise TwoFileFailure("making the two-file version failed:\n"
                                     + r.stdout.decode(errors="replace")[-3000:])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        shutil.copytree(result, out, dirs_exist_ok=True)
    except OSError as ex:
        raise NoVerdict("making the two-file version: %s" % ex)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def compile_one(cmd, out):
    if os.path.exists(out):
        return None
    tmp = "%s.%d.%d.tmp" % (out, os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=600)
    if r.returncode != 0:
        return r.stdout.decode(errors="replace")[-4000:]
    os.replace(tmp, out)
    return None


def build(config, sources):
    """Builds the library and the given harness sources, returns the path of
    the executable."""
    cfg = CONFIGS[config]
    hdr = headers_digest()
    hbase = hashlib.sha256(hdr.digest())
    for p in walk(HARNESS, (".hpp",)):
        hbase.update(os.path.relpath(p, HARNESS).encode() + read(p))
    odir = os.path.join(BUILD, "obj")
    gen = os.path.join(BUILD, "gen", hdr.hexdigest()[:16])
    os.makedirs(odir, exist_ok=True)
    make_generated_headers(gen)
    includes = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + gen]
    lib = lib_sources()
    if "two" in cfg:
        if cfg["two"] == "committed":
            top = os.path.join(REPO, "single_src")
        else:
            top = make_two_files(os.path.join(BUILD, "two", "%d" % os.getpid()))
        lib = [os.path.join(top, "Argos", "Argos.cpp")]
        includes = ["-I" + top]
        try:
            hdr = hashlib.sha256(read(os.path.join(top, "Argos", "Argos.hpp")))
        except OSError:
            raise TwoFileFailure("there's no Argos.hpp in " + top)
        hbase.update(hdr.digest())
    try:
        return compile_and_link(config, cfg, sources, lib, includes, hdr, hbase, odir)
    finally:
        if cfg.get("two") == "made":
            shutil.rmtree(top, ignore_errors=True)


EXAMPLES = ("append_clear_option", "area", "commands", "hello", "list_options", "rot13", "table", "whereis")


def build_examples():
    """Builds the example programs with the sanitizers and returns their
    directory."""
    cfg = CONFIGS["asan"]
    hdr = headers_digest()
    gen = os.path.join(BUILD, "gen", hdr.hexdigest()[:16])
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    make_generated_headers(gen)
    includes = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + gen]

    def job(s):
        h = hdr.copy()
        flags = COMMON + cfg["lib"]
        h.update((cfg["cxx"] + " ".join(flags) + s).encode() + read(s))
        out = os.path.join(odir, os.path.basename(s) + ".asan." + h.hexdigest()[:20] + ".o")
        return [cfg["cxx"]] + flags + includes + ["-w", "-c", s], out

    lib = [job(s) for s in lib_sources()]
    programs = []
    for name in EXAMPLES:
        own = walk(os.path.join(REPO, "examples", name), (".cpp",))
        if not own:
            raise NoVerdict("no sources of the example " + name)
        programs.append((name, [job(s) for s in own]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for err in ex.map(lambda j: compile_one(*j), lib):
            if err:
                raise NoVerdict("compilation failed:\n" + err)
        for err in ex.map(lambda j: compile_one(*j), [j for _, js in programs for j in js]):
            if err:
                raise ExampleFailure("compilation failed:\n" + err)
    objs = [[j[1] for j in js] + [j[1] for j in lib] for _, js in programs]
    top = os.path.join(BUILD, "bin", "examples." + hashlib.sha256(repr(objs).encode()).hexdigest()[:20])
    os.makedirs(top, exist_ok=True)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for err in ex.map(lambda i: compile_one([cfg["cxx"]] + cfg["lib"] + ["-pthread"] + objs[i],
                                                os.path.join(top, programs[i][0])), range(len(programs))):
            if err:
                raise ExampleFailure("linking failed:\n" + err)
    return top


def compile_and_link(config, cfg, sources, lib, includes, hdr, hbase, odir):
    jobs = []
    for s in [os.path.join(HARNESS, f) for f in sources] + lib:
        is_lib = not s.startswith(HARNESS)
        flags = COMMON + cfg["lib" if is_lib else "harness"]
        h = (hdr if is_lib else hbase).copy()
        name = os.path.basename(s) if "two" in cfg else s
        h.update((cfg["cxx"] + " ".join(flags) + name).encode() + read(s))
        out = os.path.join(odir, os.path.basename(s) + "." + config + "." + h.hexdigest()[:20] + ".o")
        jobs.append((os.path.getsize(s) + (0 if is_lib else 10**6),
                     [cfg["cxx"]] + flags + includes + ["-w", "-c", s], out))
    order = sorted(jobs, key=lambda j: -j[0])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for err in ex.map(lambda j: compile_one(j[1], j[2]), order):
            if err:
                raise (TwoFileFailure if "two" in cfg else NoVerdict)("compilation failed:\n" + err)
    objs = [j[2] for j in jobs]
    h = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, "bin", "%s.%s.%s" % (os.path.splitext(sources[-1])[0], config, h))
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    err = compile_one([cfg["cxx"]] + cfg["harness"] + ["-pthread"] + objs, exe)
    if err:
        raise (TwoFileFailure if "two" in cfg else NoVerdict)("linking failed:\n" + err)
    return exe


# ---------------------------------------------------------------- running

BASE = ["model.cpp", "gen.cpp", "real.cpp", "decorate.cpp", "main.cpp"]


def summarize_crash(text, rc):
    for pattern, fmt in (
            (r"VF-HANG", "hang"),
            (r"ERROR: AddressSanitizer: ([\w-]+)", "asan:%s"),
            (r"==\d+== (Conditional jump[^\n]*|Use of uninit[^\n]*|Syscall param[^\n]*|Invalid [^\n]*)",
             "memcheck:%s"),
            (r"WARNING: ThreadSanitizer: ([\w ()-]+)", "tsan:%s"),
            (r"AddressSanitizer: hard rss limit exhausted", "memory-exhausted"),
            (r"runtime error: ([^\n]{0,80})", "ubsan:%s"),
            (r"Assertion '([^'\n]{0,80})' failed", "assertion:%s"),
            (r"Error: ([^\n]{0,80})", "stl-debug:%s"),
            (r"terminate called after throwing an instance of '([^'\n]*)'", "terminate:%s")):
        m = re.search(pattern, text)
        if m:
            s = fmt % m.groups() if m.groups() else fmt
            s = re.sub(r"0x[0-9a-f]+", "ADDR", s.strip())
            f = re.search(r"(?:#\d+ 0x[0-9a-f]+ in|0x[0-9A-F]+:) (argos::[^\n(]+)", text)
            return s + (" in " + f.group(1).strip() if f else "")
    return "crash:%d" % rc


class Run:
    def __init__(self, prop, check, tier, seed):
        self.prop, self.check, self.tier, self.seed = prop, check, tier, seed
        self.evaluations = 0
        self.counters = {}
        self.sigs = set()
        self.logs = {}
        self.samples = []
        self.failures = []
        self.rule = ""
        self.required = []
        self.notes = []
        self.crashes = 0
        self.lock = threading.Lock()
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.examples = None
        self.deadline = time.time() + (780 if tier == "quick" else 3 * 3600)

    def env(self):
        e = dict(os.environ)
        e.update(ENV)
        e["VF_TMP"] = self.tmp
        e["LC_ALL"] = "C"
        if self.examples:
            e["VF_EXAMPLES"] = self.examples
        e["VF_KNOWN"] = "\n".join(key for key, _ in load_findings(self.prop))
        e.pop("COLUMNS", None)
        return e

    def command(self, exe, begin, end, extra=()):
        config = os.path.basename(exe).split(".")[1]
        cmd = CONFIGS[config].get("wrap", []) + [exe, "--seed", str(self.seed), "--begin", str(begin), "--end", str(end),
               "--tier", self.tier] + list(extra)
        if self.check.get("setarch"):
            cmd = ["setarch", os.uname().machine, "-R"] + cmd if self.setarch_works() else cmd
        return cmd

    @staticmethod
    def setarch_works():
        try:
            return subprocess.run(["setarch", os.uname().machine, "-R", "true"],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        except OSError:
            return False

    def run_chunk(self, exe, config, begin, end, n):
        name = os.path.join(self.tmp, "w%s-%d" % (config, n))
        retried = set()
        while begin < end:
            with self.lock:
                if self.crashes >= 3 or len(self.failures) >= 20:
                    return
            left = self.deadline - time.time()
            if left <= 0:
                raise NoVerdict("out of time")
            out = "%s-%d.json" % (name, begin)
            prog = name + ".progress"
            if os.path.exists(prog):
                os.unlink(prog)
            with open(name + ".err", "wb") as err:
                try:
                    rc = subprocess.run(
                        self.command(exe, begin, end, ["--out", out, "--progress", prog,
                                                       "--samples", "2" if n < 3 else "0"]),
                        stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL,
                        env=self.env(), cwd=self.tmp, timeout=left).returncode
                except subprocess.TimeoutExpired:
                    raise NoVerdict("out of time")
            text = read(name + ".err")[-20000:].decode(errors="replace")
            if rc in (0, 1) and os.path.exists(out):
                self.merge(out, config)
                return
            if rc in (3, 4):
                raise NoVerdict("harness error: " + text)
            # The worker died. Find out where, and whether it happens again.
            try:
                index, state = struct.unpack("QQ", read(prog)[:16])
            except (OSError, struct.error):
                raise NoVerdict("worker did not start: rc=%d %s" % (rc, text))
            if state == 0:
                raise NoVerdict("worker did not start: rc=%d %s" % (rc, text))
            rc2, text2 = self.run_single(exe, index)
            if rc2 not in (0, 1):
                self.add_crash(index, config, rc2, text2, "")
            elif state == 2 or index in retried:
                self.add_crash(index, config, rc, text,
                               " (only when preceded by the cases from %d)" % begin)
            else:
                self.notes.append("case %d died once (rc=%d) and was repeated" % (index, rc))
                retried.add(index)
                continue
            with self.lock:
                self.evaluations += index + 1 - begin
            begin = index + 1

    def run_single(self, exe, index, capture=True):
        with open(os.path.join(self.tmp, "single-%d.err" % index), "wb+") as err:
            try:
                rc = subprocess.run(self.command(exe, index, index + 1, ["--verbose", "1"]),
                                    stdout=subprocess.DEVNULL, stderr=err, env=self.env(),
                                    stdin=subprocess.DEVNULL,
                                    cwd=self.tmp, timeout=max(60, self.deadline - time.time())).returncode
            except subprocess.TimeoutExpired:
                raise NoVerdict("out of time")
            err.seek(0)
            return rc, err.read()[-30000:].decode(errors="replace")

    def add_crash(self, index, config, rc, text, note):
        with self.lock:
            self.crashes += 1
            self.failures.append({"case": index, "config": config, "key": summarize_crash(text, rc),
                                  "detail": "exit code %d%s" % (rc, note), "desc": text})

    def merge(self, path, config):
        with open(path) as f:
            data = json.load(f)
        raw = read(path + ".sigs")
        log = read(path + ".log") if os.path.exists(path + ".log") else b""
        with self.lock:
            for index, value in struct.iter_unpack("QQ", log):
                self.logs.setdefault(config, {})[index] = value
            self.evaluations += data["evaluations"]
            for k, v in data["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + v
            self.sigs.update(struct.unpack("%dQ" % (len(raw) // 8), raw))
            self.samples += data["samples"]
            for f in data["failures"]:
                f["config"] = config
            self.failures += data["failures"]
            self.rule = data["rule"]
            self.required = data["required"]
        os.unlink(path)
        os.unlink(path + ".sigs")
        if log:
            os.unlink(path + ".log")

    def run_config(self, config, cases):
        exe = build(config, BASE + self.check.get("extra", []) + [self.check["src"]])
        chunks = max(1, min(JOBS * 4, cases // 20))
        size = (cases + chunks - 1) // chunks
        ranges = [(i * size, min(cases, (i + 1) * size)) for i in range(chunks) if i * size < cases]
        workers = self.check.get("workers", JOBS)
        with cf.ThreadPoolExecutor(workers) as ex:
            futures = [ex.submit(self.run_chunk, exe, config, b, e, n)
                       for n, (b, e) in enumerate(ranges)]
            for f in futures:
                f.result()
        return exe

    def compare_logs(self, exes, first, second):
        """Offline comparison of what two builds did in the same cases"""
        a, b = self.logs.get(first, {}), self.logs.get(second, {})
        self.counters["cases_compared"] = len(set(a) & set(b))
        for index in sorted(set(a) | set(b)):
            if a.get(index) == b.get(index) or len(self.failures) >= 5:
                continue
            texts = [self.run_single(exes[c], index)[1] for c in (first, second)]
            logs = [re.findall("^VF-LOG: .*", t, re.M) for t in texts]
            n = next((i for i, (x, y) in enumerate(zip(*logs)) if x != y), min(map(len, logs)))
            self.failures.append({
                "case": index, "config": second, "key": "differs-from-the-library",
                "detail": "observation %d\nlibrary: %s\ntwo-file version: %s" % tuple(
                    [n] + [(l + ["nothing"] * (n + 1))[n] for l in logs]),
                "desc": texts[1][:3000]})

    def run_fuzzer(self, runs):
        exe = build("fuzz", BASE + self.check.get("extra", []) + [self.check["src"]])
        corpus = os.path.join(self.tmp, "corpus")
        os.makedirs(corpus)
        procs = []
        for j in range(JOBS):
            log = open(os.path.join(self.tmp, "fuzz%d.log" % j), "wb")
            procs.append((j, log, subprocess.Popen(
                [exe, "-runs=%d" % runs, "-seed=%d" % (self.seed * 100 + j + 1), "-max_len=4096",
                 "-len_control=50", "-timeout=120", "-rss_limit_mb=3500", "-print_final_stats=1",
                 "-reload=1",
                 "-artifact_prefix=%s/" % os.path.join(self.tmp, "art%d-" % j), corpus],
                stdout=subprocess.DEVNULL, stderr=log, env=self.env(), cwd=self.tmp)))
        for j, log, p in procs:
            try:
                rc = p.wait(max(10, self.deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                raise NoVerdict("fuzzer out of time")
            log.close()
            text = read(log.name).decode(errors="replace")
            m = re.search(r"stat::number_of_executed_units:\s+(\d+)", text)
            n = int(m.group(1)) if m else 0
            self.counters["fuzzer_runs"] = self.counters.get("fuzzer_runs", 0) + n
            self.evaluations += n
            covs = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", text)
            if covs:
                c = covs[-1]
                self.counters["fuzzer_edges_covered"] = max(
                    self.counters.get("fuzzer_edges_covered", 0), int(c[0]))
                self.counters["fuzzer_features"] = max(
                    self.counters.get("fuzzer_features", 0), int(c[1]))
            if rc != 0:
                arts = [a for a in os.listdir(self.tmp) if a.startswith("art%d-" % j)]
                if not arts:
                    raise NoVerdict("fuzzer failed: " + text[-2000:])
                a = os.path.join(self.tmp, arts[0])
                # Once more, alone
                with open(a + ".err", "wb") as err:
                    rc2 = subprocess.run([exe, a], stdout=subprocess.DEVNULL, stderr=err,
                                         env=dict(self.env(), VF_VERBOSE="1")).returncode
                text2 = read(a + ".err").decode(errors="replace")
                if rc2 == 0:
                    self.notes.append("fuzzer artifact %s did not reproduce" % arts[0])
                    continue
                m = re.search(r"VF-FAILURE: ([^\n]*)", text2)
                self.failures.append({"case": -1, "config": "fuzz",
                                      "key": m.group(1) if m else summarize_crash(text2, rc2),
                                      "detail": "fuzzer input " + read(a).hex(),
                                      "desc": text2[-30000:]})

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


# ---------------------------------------------------------------- findings

def load_findings(prop):
    """Lines 'finding: property=<id> key=<key> :: <what fails>'. A finding
    covers only failures with exactly that key."""
    result = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                result.append((m.group(2), m.group(3)))
    return result


def write_replay(run, failure):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (run.prop, run.seed, failure["case"]
                                              if failure["case"] >= 0 else "fuzz"))
    with open(path, "w") as f:
        json.dump({"property": run.prop, "seed": run.seed, "tier": run.tier,
                   "config": failure.get("config"), "case": failure["case"],
                   "key": failure["key"], "detail": failure["detail"],
                   "description": failure["desc"],
                   "how": "python3 /verif/check.py %s --replay %s" % (run.prop, path)}, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--setup", action="store_true", help="checks that the tools are there")
    args = ap.parse_args()

    if args.setup:
        for tool in ("g++", "clang++", "valgrind"):
            if not shutil.which(tool):
                print("missing:", tool)
                return 2
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        return 0

    if args.build:
        for prop in PROPERTY_IDS:
            for config, _ in CHECKS[prop]["quick"]:
                if config == "fuzz":
                    continue
                build(config, BASE + CHECKS[prop].get("extra", []) + [CHECKS[prop]["src"]])
            if CHECKS[prop].get("examples"):
                build_examples()
        return 0

    prop = args.property
    if prop not in CHECKS:
        print("unknown property", prop, file=sys.stderr)
        return 2
    check = CHECKS[prop]
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        run = Run(prop, check, rep["tier"], rep["seed"])
        try:
            if check.get("examples"):
                run.examples = build_examples()
            if rep["case"] < 0:
                exe = build("fuzz", BASE + check.get("extra", []) + [check["src"]])
                path = os.path.join(run.tmp, "input")
                with open(path, "wb") as f:
                    f.write(bytes.fromhex(rep["detail"].split()[-1]))
                r = subprocess.run([exe, path], env=dict(run.env(), VF_VERBOSE="1"))
                return 0 if r.returncode == 0 else 1
            if rep.get("key") == "differs-from-the-library":
                logs = []
                for config in (check["compare"][0], rep["config"]):
                    exe = build(config, BASE + check.get("extra", []) + [check["src"]])
                    logs.append(re.findall("^VF-LOG: .*", run.run_single(exe, rep["case"])[1], re.M))
                    print(config + ":\n" + "\n".join(logs[-1]))
                return 0 if logs[0] == logs[1] else 1
            exe = build(rep["config"], BASE + check.get("extra", []) + [check["src"]])
            rc, text = run.run_single(exe, rep["case"])
            print(text)
            return 0 if rc == 0 else 1
        except (TwoFileFailure, ExampleFailure) as ex:
            print(ex)
            return 1
        finally:
            run.cleanup()

    start = time.time()
    exes = {}
    run = Run(prop, check, args.tier, args.seed)
    try:
        if check.get("examples"):
            try:
                run.examples = build_examples()
            except ExampleFailure as ex:
                run.failures.append({"case": 0, "config": "asan", "key": "examples-not-built",
                                     "detail": str(ex), "desc": ""})
        for config, cases in check[args.tier]:
            if run.failures:
                break
            if config == "fuzz":
                run.run_fuzzer(args.cases or cases)
            else:
                try:
                    exes[config] = run.run_config(config, args.cases or cases)
                except TwoFileFailure as ex:
                    run.failures.append({"case": 0, "config": config, "key": "two-file-version-not-built",
                                         "detail": str(ex), "desc": ""})
            if run.failures:
                break
        if check.get("compare") and not run.failures:
            run.compare_logs(exes, *check["compare"])
    finally:
        run.cleanup()

    findings = load_findings(prop)
    known, new = [], []
    for f in run.failures:
        hit = next((x for x in findings if x[0] == f["key"]), None)
        (known if hit else new).append(f)
    evidence = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": check.get("level", "exploration"),
        "coverage": {
            "evaluations": run.evaluations,
            "distinct_nontrivial": len(run.sigs),
            "rule": run.rule,
            "samples": [s["desc"][:3000] for s in sorted(run.samples, key=lambda s: s["case"])[:3]],
            "observed": dict(sorted(run.counters.items())),
            "builds": [c for c, _ in check[args.tier]],
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - start, 2),
        "violations": len(new),
    }
    if run.notes:
        evidence["coverage"]["notes"] = run.notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for _, what in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if new:
        seen = set()
        for f in new:
            if f["key"] in seen:
                continue
            seen.add(f["key"])
            path = write_replay(run, f)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (f["key"], f["detail"][:1500]))
            print("  " + f["desc"][:3000].replace("\n", "\n  "))
        return 1
    missing = [r for r in run.required if not run.counters.get(r)]
    if missing or (run.evaluations and not run.sigs):
        raise NoVerdict("nothing was observed of: " + ", ".join(missing or ["non-trivial cases"]))
    print("property=%s held: %d cases, %d distinct and non-trivial, %.1f s"
          % (prop, run.evaluations, len(run.sigs), time.time() - start))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as ex:
        print("NO VERDICT:", ex, file=sys.stderr)
        sys.exit(2)
