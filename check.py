#!/usr/bin/env python3
"""Checks one property of msk/rescan by generated-input search.

usage: check.py PROPERTY

VERIF_TIER (quick or thorough) and VERIF_SEED select what is explored. The
harness is built from the working tree of /repo (REPO overrides the location).

Exit status: 0 if the property held on everything explored; 1 if it is
violated, with a line "VIOLATION property=<id> replay=<path>"; 2 if the check
gives no answer (does not build, runs out of time or memory, hangs).
"""

import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
# Properties that are checked through the public API only.
PUBLIC = ["C01", "C02", "C03", "C04", "C05"]
# Properties with a part that is, and a part that is not.
PARTLY = ["C06", "C21"]
# The access to internals that each other property needs (see src/verif.rs). A
# check is built with no more, to depend on no other internals.
BUILDER = "settings builder graph info reports"
AREAS = {
    "C06": BUILDER,
    "C07": "tree",
    "C08": "tree modes info",
    "C09": "tree literal string graph info",
    "C10": "graph info",
    "C11": BUILDER + " literal string",
    "C12": BUILDER + " string",
    "C13": "settings reports",
    "C14": "sets",
    "C15": "sets",
    "C16": "string",
    "C17": "sets describe tree dump",
    "C18": "depth",
    "C19": "arithmetic",
    "C20": BUILDER + " runtime",
    "C21": "runtime",
    "C22": "connect graph info",
    "C23": "graph info",
    "C24": BUILDER + " string",
}
# Seconds for a single case. The longest take a few, even on a busy machine.
HANG = 120
# Seconds for a worker. Cases that are left then, on code that is many times
# slower than expected, are not run (the evidence says so); the check gives no
# answer if a worker takes much longer still.
SECONDS = {"quick": 480, "thorough": 3 * 3600}


class NoAnswer(Exception):
    pass


def log(*args):
    print(*args, file=sys.stderr, flush=True)


class Build:
    """One build of the harness.

    `hooks` is the property that the access to internals is for, or None.
    """

    def __init__(self, name, profile, features, hooks, guided=False):
        self.name = name
        self.profile = profile
        self.features = features
        self.hooks = hooks
        self.guided = guided
        self.binary = None
        self.output = ""

    def run(self, root):
        target = os.path.join(root, self.name)
        env = dict(os.environ)
        env.update(
            RUSTUP_TOOLCHAIN="stable",
            CARGO_NET_OFFLINE="true",
            CARGO_TERM_COLOR="never",
            CARGO_INCREMENTAL="0",
            PATH=os.environ.get("PATH", "") + ":/root/.cargo/bin",
        )
        for k in list(env):
            if k.startswith("CARGO_PROFILE_") or k in (
                "CARGO_ENCODED_RUSTFLAGS",
                "CARGO_BUILD_RUSTFLAGS",
                "RUSTC_WRAPPER",
                "RUSTC_WORKSPACE_WRAPPER",
                "CARGO_TARGET_DIR",
                "CARGO_BUILD_TARGET",
            ):
                del env[k]
        flags = ["--cap-lints", "warn"]
        if self.hooks:
            flags += ["--cfg", "rescan_verif", "--cfg", f'rescan_check="{self.hooks}"']
            for area in AREAS[self.hooks].split():
                flags += ["--cfg", f'rescan_verif="{area}"']
        env["RUSTFLAGS"] = " ".join(flags)
        if self.guided:
            env["RUSTC_WRAPPER"] = os.path.join(HERE, "tools", "rustc-cov.sh")
        cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--target-dir", target]
        if self.profile != "dev":
            cmd += ["--profile", self.profile]
        if self.features:
            cmd += ["--features", ",".join(self.features)]
        try:
            p = subprocess.run(
                cmd, cwd=root_harness(root), env=env, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, timeout=700,
            )
        except subprocess.TimeoutExpired:
            self.output = "the build took too long"
            return
        self.output = p.stdout.decode("utf-8", "replace")
        if p.returncode == 0:
            d = "debug" if self.profile == "dev" else self.profile
            self.binary = os.path.join(target, d, "rvharness")


def root_harness(root):
    """The harness, or a copy that depends on another location of /repo."""
    repo = os.environ.get("REPO")
    if not repo:
        return HARNESS
    copy = os.path.join(root, "harness")
    with COPY_LOCK:
        if not os.path.isdir(copy):
            shutil.copytree(HARNESS, copy, ignore=shutil.ignore_patterns("target*"))
            path = os.path.join(copy, "Cargo.toml")
            with open(path) as f:
                text = f.read()
            with open(path, "w") as f:
                f.write(text.replace("../../repo", os.path.abspath(repo)))
    return copy


COPY_LOCK = threading.Lock()

ESCAPES = {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}


def unescape(text):
    def one(m):
        e = m.group(1)
        if e[0] == "x":
            return chr(int(e[1:], 16))
        if e[0] == "u":
            return chr(min(int(e[2:-1].replace("_", "") or "0", 16), 0x10ffff))
        return ESCAPES.get(e, e)

    text = re.sub(r"\\\n\s*", "", text)
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)", one, text, flags=re.S)


def vocabulary():
    """Strings and numbers in the source code under test, for the generators:
    a condition on a particular one is likely to mention it."""
    src = os.path.join(os.environ.get("REPO") or os.path.join(HERE, "..", "repo"), "src")
    words, numbers = set(), set()
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x != "verif"]
        for name in files:
            if not name.endswith(".rs") or name == "verif.rs":
                continue
            with open(os.path.join(d, name), encoding="utf-8", errors="replace") as f:
                text = f.read().split("#[cfg(test)]")[0]
            text = re.sub(r"(?m)^\s*//.*$", "", text)
            for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', text, re.S):
                w = unescape(m.group(1))
                if 1 < len(w) <= 40 and "{}" not in w and "\n  " not in w:
                    words.add(w)
            for m in re.finditer(r"\b1\w* *<< *([0-9]{1,2})\b", text):
                numbers.add(1 << min(int(m.group(1)), 63))
            for m in re.finditer(r"\b([0-9_]*[0-9]) *\* *([0-9_]*[0-9])", text):
                numbers.add(min(int(m.group(1).strip("_")) * int(m.group(2).strip("_")), (1 << 64) - 1))
            for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)", text):
                try:
                    n = int(m.group(1).rstrip("_"), 0)
                except ValueError:
                    continue
                if 8 <= n < 1 << 64:
                    numbers.add(n)
    lines = ["n %d" % n for n in sorted(numbers)]
    lines += ["s " + " ".join(str(ord(c)) for c in w) for w in sorted(words)]
    return "\n".join(lines) + "\n"


def use_vocabulary(text, root):
    path = os.path.join(root, "words")
    with open(path, "w") as f:
        f.write(text)
    os.environ["RVH_WORDS"] = path


def build_all(builds, root):
    threads = [threading.Thread(target=b.run, args=(root,)) for b in builds]
    for t in threads:
        t.start()
    for t in threads:
        t.join()


class Worker:
    def __init__(self, build, prop, tier, seed, shard, nshards, out, mode):
        self.build = build
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.nshards = nshards
        self.out = out
        self.mode = mode
        self.proc = None
        self.hung = False
        self.last = None
        self.since = time.time()

    def command(self):
        return [
            self.build.binary, self.mode, self.prop, self.tier, str(self.seed),
            str(self.shard), str(self.nshards), self.out,
        ]

    def start(self):
        self.err = open(self.out + ".stderr", "wb")
        self.proc = subprocess.Popen(
            self.command(), stdout=subprocess.DEVNULL, stderr=self.err,
            stdin=subprocess.DEVNULL, preexec_fn=limits,
            env=dict(os.environ, RVH_SECONDS=str(SECONDS[self.tier])),
        )

    def progress(self):
        try:
            with open(self.out + ".progress", "rb") as f:
                data = f.read(1 << 20)
        except OSError:
            return None
        return data if len(data) >= 16 else None

    def stalled(self, now):
        p = self.progress()
        if p != self.last:
            self.last = p
            self.since = now
        return now - self.since

    def stop(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def stderr(self):
        try:
            with open(self.out + ".stderr", "rb") as f:
                return f.read()[-2000:].decode("utf-8", "replace")
        except OSError:
            return ""

    def describe(self):
        return f"{self.build.name} {self.mode} {self.shard}/{self.nshards}"


# Address space, of which the stack takes up to 1 GiB.
WORKER_MEMORY = 3_900 << 20
CASE_MEMORY = 12 << 30


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    # C20 maps more for a moment, but does not use it.
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, CASE_MEMORY))


def case_limits():
    """For one case alone."""
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (CASE_MEMORY, CASE_MEMORY))


# Crashes of the process that count as behaviour of the code under test: an
# abort (panic in drop, stack overflow), invalid memory accesses, bad
# instructions, arithmetic exceptions.
CRASHES = {
    signal.SIGABRT: "abort",
    signal.SIGSEGV: "segmentation fault",
    signal.SIGBUS: "bus error",
    signal.SIGILL: "illegal instruction",
    signal.SIGFPE: "arithmetic exception",
    signal.SIGTRAP: "trap",
}


def crashed(code):
    return code < 0 and -code in {int(s) for s in CRASHES}


def out_of_memory(text):
    return "memory allocation of" in text


class Case:
    """A failing case."""

    def __init__(self, build, sub, choices, message, notes):
        self.build = build
        self.sub = sub
        self.choices = choices
        self.message = message
        self.notes = notes


def run_case(build, prop, sub, choices, tmp, command="case", timeout=120):
    path = os.path.join(tmp, "choices")
    with open(path, "w") as f:
        f.write(" ".join(map(str, choices)))
    p = subprocess.run(
        [build.binary, command, prop, sub, path], stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, timeout=timeout, preexec_fn=case_limits,
    )
    text = p.stdout.decode("utf-8", "replace")
    err = p.stderr.decode("utf-8", "replace")
    if crashed(p.returncode) and out_of_memory(err):
        return f"the case takes more than {CASE_MEMORY >> 30} GiB of memory", None
    if crashed(p.returncode):
        return "the process ends with: " + CRASHES[signal.Signals(-p.returncode)], None
    if p.returncode == 1:
        d = json.loads(text)
        return d["message"], d
    if p.returncode == 0:
        return None, None
    raise NoAnswer(f"running a case ended with {p.returncode}: {err[-500:]}")


def shrink_crash(build, prop, sub, choices, tmp):
    """Shrinks a case that ends the process, in separate processes."""
    end = time.time() + 60

    def fails(c):
        if time.time() > end:
            return False
        try:
            m, d = run_case(build, prop, sub, c, tmp, timeout=20)
        except (NoAnswer, subprocess.TimeoutExpired):
            return False
        return m is not None and d is None

    best = choices
    size = max(1, len(best) // 2)
    while size >= 1 and time.time() < end:
        i = 0
        while i < len(best):
            c = best[:i] + best[i + size:]
            if fails(c):
                best = c
            else:
                i += size
        size //= 2
    for i in range(len(best)):
        lo = 0
        while lo < best[i] and time.time() < end:
            mid = (lo + best[i]) // 2
            c = best[:i] + [mid] + best[i + 1:]
            if fails(c):
                best = c
            else:
                lo = mid + 1
    return best


def confirm(w, tmp):
    """Turns the ending of a worker into a confirmed failing case, if it is one."""
    code = w.proc.returncode
    b, prop, tier = w.build, w.prop, w.tier
    if code == 1:
        r = w.result()
        if not r or not r.get("failure"):
            raise NoAnswer(f"worker {w.describe()} failed without a result: {w.stderr()}")
        f = r["failure"]
        sub, choices = f["sub"], f["choices"]
        m, d = run_case(b, prop, sub, choices, tmp)
        if m is None:
            return repeat_worker(w, f, tmp)
        if d is None:
            return crash_case(w, sub, choices, tmp)
        # Shrink in one process; if that does not work out, keep the case.
        best = Case(b, sub, choices, d["message"], d["notes"])
        try:
            m, d = run_case(b, prop, sub, choices, tmp, command="shrink", timeout=200)
            if d is not None:
                c = d["choices"]
                m2, d2 = run_case(b, prop, sub, c, tmp)
                if d2 is not None:
                    best = Case(b, sub, c, d2["message"], d2["notes"])
        except (NoAnswer, subprocess.TimeoutExpired):
            pass
        return best
    if w.hung or crashed(code) or code == -signal.SIGKILL:
        data = w.progress()
        if not data:
            raise NoAnswer(f"worker {w.describe()} crashed before the first case: {w.stderr()}")
        if w.mode == "fuzz":
            cmd = [b.binary, "fuzz-choices", prop, w.out + ".progress"]
        else:
            si, case = struct.unpack("<QQ", data[:16])
            cmd = [b.binary, "choices", prop, str(si), str(w.seed), str(case), tier]
        trace = os.path.join(tmp, "trace")
        with open(trace, "wb") as out:
            try:
                code = subprocess.run(cmd, stdout=out, stderr=subprocess.DEVNULL,
                                      timeout=HANG, preexec_fn=case_limits).returncode
            except subprocess.TimeoutExpired:
                code = None
        with open(trace) as f:
            lines = f.read(1 << 28).split("\n")
        choices = [int(x) for x in lines[1:] if x.strip().isdigit()]
        if code is None:
            message = f"does not end within {HANG} s, alone"
            log(f"check '{lines[0]}': {message}")
            return Case(b, lines[0], choices, message, "")
        if w.hung:
            raise NoAnswer(f"worker {w.describe()} was stuck in a case that ends when alone")
        if not crashed(code):
            return repeat_worker(w, None, tmp)
        return crash_case(w, lines[0], choices, tmp)
    raise NoAnswer(f"worker {w.describe()} ended with {code}: {w.stderr()}")


def crash_case(w, sub, choices, tmp):
    m, d = run_case(w.build, w.prop, sub, choices, tmp)
    if m is None:
        return repeat_worker(w, None, tmp)
    best = shrink_crash(w.build, w.prop, sub, choices, tmp)
    return Case(w.build, sub, best, m, "")


def repeat_worker(w, failure, tmp):
    """A failure that takes the history of the worker's process to show."""
    again = Worker(w.build, w.prop, w.tier, w.seed, w.shard, w.nshards,
                   os.path.join(tmp, "again"), w.mode)
    again.start()
    try:
        code = again.proc.wait(600)
    except subprocess.TimeoutExpired:
        again.stop()
        raise NoAnswer("a failure could not be repeated in time")
    r = again.result()
    if code == 1 and r and r.get("failure"):
        f = r["failure"]
        return Case(w.build, f["sub"], None,
                    f["message"] + " (only after the cases before it in the same process)",
                    f["notes"])
    if crashed(code) and not out_of_memory(again.stderr()):
        return Case(w.build, "", None, "the process crashes: " + again.stderr()[-500:], "")
    raise NoAnswer(f"a failure of {w.describe()} does not repeat: {failure}")


def write_replay(prop, tier, w, case):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.json")
    data = {
        "property": prop,
        "build": {
            "profile": case.build.profile,
            "features": case.build.features,
            "hooks": case.build.hooks,
            "guided": case.build.guided,
        },
        "tier": tier,
        "check": case.sub,
        "message": case.message,
        "case": case.notes,
    }
    if case.choices is None:
        data["worker"] = [w.mode, w.seed, w.shard, w.nshards]
        data["words"] = vocabulary()
    else:
        data["choices"] = case.choices
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    return path


def plan(prop, tier, binaries):
    """(build, mode, seed offset, shard, number of shards) of each worker."""
    checked, release, guided = binaries
    jobs = []
    n = 4
    for i in range(n):
        jobs.append((checked, "worker", 0, i, n))
    for i in range(2):
        jobs.append((release, "worker", 1_000_003, i, 4))
    if guided is not None:
        for i in range(2):
            jobs.append((guided, "fuzz", 0, i, 2))
    return jobs


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith(f"known: property={prop} "):
                    out.append(line.strip()[len(f"known: property={prop} "):])
    return out


def main():
    if len(sys.argv) != 2:
        log(__doc__)
        return 2
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) % (1 << 62)
    except ValueError:
        seed = 1
    start = time.time()
    tmp = tempfile.mkdtemp(prefix=f"rescan-{prop}-")
    workers = []
    try:
        return check(prop, tier, seed, start, tmp, workers)
    except NoAnswer as e:
        log(f"NO ANSWER: {e}")
        return 2
    except subprocess.TimeoutExpired as e:
        log(f"NO ANSWER: {e}")
        return 2
    finally:
        for w in workers:
            w.stop()
        shutil.rmtree(tmp, ignore_errors=True)


def make_builds(prop, hooks):
    hooks = prop if hooks else None
    return [
        # Depth of recursion counts for C01: no optimization.
        Build("checked", "dev" if prop == "C01" else "checked", [], hooks),
        Build("release", "release", [], hooks),
        Build("guided", "guided", ["fuzz"], hooks, guided=True),
    ]


def check(prop, tier, seed, start, tmp, workers):
    degraded = []
    hooks = prop not in PUBLIC
    builds = make_builds(prop, hooks)
    use_vocabulary(vocabulary(), tmp)
    build_all(builds, tmp)
    if prop in PARTLY and not all(b.binary for b in builds[:2]):
        log("the build with access to internals fails:", builds[0].output[-1500:])
        degraded.append("built without access to internals; checked through the public API only")
        builds = make_builds(prop, False)
        build_all(builds, tmp)
    for b in builds[:2]:
        if not b.binary:
            raise NoAnswer(f"build {b.name} fails:\n{b.output[-3000:]}")
    if not builds[2].binary:
        log("the instrumented build fails:", builds[2].output[-1500:])
        degraded.append("no coverage-guided search: the instrumented build fails")
    build_s = time.time() - start

    binaries = [b if b.binary else None for b in builds]
    info = None
    p = subprocess.run([builds[0].binary, "list"], stdout=subprocess.PIPE, timeout=60)
    for line in p.stdout.decode().splitlines():
        d = json.loads(line)
        if d["id"] == prop:
            info = d
    if info is None:
        raise NoAnswer(f"unknown property {prop}")

    for k, (b, mode, offset, shard, n) in enumerate(plan(prop, tier, binaries)):
        workers.append(Worker(b, prop, tier, seed + offset, shard, n, os.path.join(tmp, f"out{k}"), mode))
    for w in workers:
        w.start()

    deadline = start + (780 if tier == "quick" else 4 * 3600)
    bad = None
    running = list(workers)
    while running and bad is None:
        time.sleep(0.05)
        now = time.time()
        for w in list(running):
            code = w.proc.poll()
            if code is not None:
                running.remove(w)
                if code != 0:
                    bad = w
                    break
            elif w.stalled(now) > HANG:
                log(f"worker {w.describe()} hangs in a case")
                w.hung = True
                w.stop()
                bad = w
                break
        if now > deadline:
            raise NoAnswer("out of time")
    for w in running:
        w.stop()

    case = confirm(bad, tmp) if bad is not None else None

    # Evidence.
    results = [(w, w.result()) for w in workers]
    results = [(w, r) for w, r in results if r]
    distinct = set()
    for w, _ in results:
        with open(w.out + ".nontrivial", "rb") as f:
            data = f.read()
        distinct.update(struct.unpack(f"<{len(data) // 8}Q", data))
    per_sub, labels, samples = {}, {}, []
    for w, r in results:
        for k, v in r.get("per_sub", {}).items():
            per_sub[k] = per_sub.get(k, 0) + v
        for k, v in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        if len(samples) < 16:
            samples += r.get("samples", [])
    cut = sorted({s for _, r in results for s in r.get("cut", [])})
    if cut:
        degraded.append("the code is so slow that not all cases were run: " + ", ".join(cut))
    guided = [r for w, r in results if w.mode == "fuzz"]
    coverage = {
        "evaluations": sum(r["evaluations"] for _, r in results),
        "distinct_nontrivial": len(distinct),
        "rule": "Cases are drawn from seeded structured generators, enumerated where a check "
                "covers a finite space, and varied under coverage guidance. Non-trivial: "
                + info["rule"],
        "samples": samples[:16],
        "cases_per_check": per_sub,
        "labels": labels,
        "enumerated_completely": [
            s["name"] for s in info["subs"] if s["kind"] == "enum" and bad is None and s["name"] not in cut
        ],
        "coverage_guided": {
            "cases": sum(r["cases"] for r in guided),
            "edges": [r["edges"] for r in guided],
            "kept": [r["corpus"] for r in guided],
        },
        "workers": [
            {"worker": w.describe(), "cases": r["cases"], "wall_s": r["wall"]} for w, r in results
        ],
        "build_s": round(build_s, 1),
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": info["assumptions"] + degraded,
        "wall_s": round(time.time() - start, 2),
        "violations": 0 if case is None else 1,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)

    for line in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {line}")
    if case is not None:
        path = write_replay(prop, tier, bad, case)
        print(f"{prop}: check '{case.sub}' ({case.build.name}): {case.message[:2000]}")
        if case.notes:
            print("case:\n" + case.notes[:4000])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    print(
        f"{prop}: held on {coverage['evaluations']} evaluations "
        f"({coverage['distinct_nontrivial']} distinct and non-trivial), "
        f"{evidence['wall_s']} s"
    )
    return 0


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    sys.exit(main())
