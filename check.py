#!/usr/bin/env python3
"""Runs the check of one property: builds libdynd and the harness from /repo's working tree, drives the generators,
shrinks and replays a failure, and writes evidence/<id>.json.

usage: check.py <property id> | check.py --setup | check.py --replay <property id> <file>
"""
import fcntl
import hashlib
import json
import os
import shutil
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX, CC = "/usr/bin/clang++", "/usr/bin/clang"
# one build of the library and its harnesses per sanitizer
SAN = {
    "address": ("lib", "h", "AddressSanitizer"),
    "thread": ("lib-t", "h-t", "ThreadSanitizer"),
}
NPROC = os.cpu_count() or 8

with open(os.path.join(VERIF, "props.json")) as f:
    PROPS = json.load(f)


def san(pid):
    return PROPS[pid].get("san", "address")


def flags(sn):
    return f"-O0 -g1 -Wno-error -w -fsanitize={sn} -fno-omit-frame-pointer"


def exe_of(pid):
    return os.path.join(BUILD, SAN[san(pid)][1], PROPS[pid]["harness"])


def env():
    e = {k: v for k, v in os.environ.items() if k not in ("CXXFLAGS", "CFLAGS", "LDFLAGS")}
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["LC_ALL"] = "C.UTF-8"
    e["TZ"] = "UTC"
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "3G"
    e["CCACHE_BASEDIR"] = ""
    e["ASAN_OPTIONS"] = (
        "detect_leaks=0:abort_on_error=0:exitcode=95:allocator_may_return_null=0:max_allocation_size_mb=3000:"
        "detect_stack_use_after_return=0:malloc_context_size=12:symbolize=1:quarantine_size_mb=16:handle_abort=1"
    )
    e["TSAN_OPTIONS"] = "exitcode=95:halt_on_error=1:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0"
    sym = "/usr/bin/llvm-symbolizer"
    for c in ("/usr/bin/llvm-symbolizer-18", "/usr/lib/llvm-18/bin/llvm-symbolizer"):
        if os.path.exists(c):
            sym = c
    e["ASAN_SYMBOLIZER_PATH"] = sym
    e["TSAN_SYMBOLIZER_PATH"] = sym
    return e


def die(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


def sh(cmd, what, timeout=840, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), timeout=timeout, cwd=cwd)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode("utf-8", "replace")[-6000:] + "\n")
        die(f"{what} failed (status {r.returncode})")
    return r.stdout.decode("utf-8", "replace")


def build(ids):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for sn in SAN:
            todo = [i for i in ids if san(i) == sn]
            if todo:
                build_variant(sn, todo)


def build_variant(sn, ids):
    lib, hb = (os.path.join(BUILD, x) for x in SAN[sn][:2])
    fl = flags(sn)
    os.makedirs(hb, exist_ok=True)
    launcher = "/usr/bin/ccache" if os.path.exists("/usr/bin/ccache") else ""
    stamp = os.path.join(BUILD, "config-" + sn)
    key = "\n".join([REPO, fl, CXX, launcher, "2"])
    if not (os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(lib + "/build.ninja")):
        shutil.rmtree(lib, ignore_errors=True)
        cmd = [
            "cmake", "-S", REPO, "-B", lib, "-G", "Ninja", "-DDYND_BUILD_TESTS=OFF", "-DCMAKE_BUILD_TYPE=",
            "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", f"-DCMAKE_CXX_COMPILER={CXX}", f"-DCMAKE_C_COMPILER={CC}",
            f"-DCMAKE_CXX_FLAGS={fl}", f"-DCMAKE_C_FLAGS=-O0 -w -fsanitize={sn}",
        ]
        if launcher:
            cmd += [f"-DCMAKE_CXX_COMPILER_LAUNCHER={launcher}", f"-DCMAKE_C_COMPILER_LAUNCHER={launcher}"]
        sh(cmd, "cmake")
        with open(stamp, "w") as f:
            f.write(key)
    sh(["ninja", "-C", lib, f"-j{NPROC}", "libdynd.so", "libdyndt.so"], "building libdynd")
    inc = f"-I{REPO}/include -I{lib}/include -I{REPO}/thirdparty/utf8/source -I{VERIF}/harness"
    lines = [
        f"rule cxx\n  command = {launcher} {CXX} -std=c++14 {fl} -ftemplate-depth=500 {inc} -MD -MF $out.d -c $in -o $out\n"
        "  deps = gcc\n  depfile = $out.d\n",
        f"rule link\n  command = {CXX} -fsanitize={sn} -rdynamic $in -o $out -L{lib} -ldynd -ldyndt -Wl,-rpath,{lib} -lpthread -ldl\n",
    ]
    for i in sorted(PROPS):
        src = os.path.join(VERIF, "harness", PROPS[i]["harness"] + ".cpp")
        if not os.path.exists(src) or san(i) != sn:
            continue
        n = PROPS[i]["harness"]
        lines.append(f"build {hb}/{n}.o: cxx {src}\n")
        lines.append(f"build {hb}/{n}: link {hb}/{n}.o | {lib}/libdynd.so {lib}/libdyndt.so\n")
    text = "\n".join(dict.fromkeys(lines))
    p = os.path.join(hb, "build.ninja")
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)
    sh(["ninja", "-C", hb, f"-j{NPROC}"] + sorted({exe_of(i) for i in ids}), "building the harness")


def known(pid):
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: property=" + pid + " "):
                rest = line.split(" ", 2)[2]
                name, _, text = rest.partition(" ")
                out[name] = text
    return out


def run_bin(args, timeout):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=timeout)


def shard_args(exe, seed, shard, cases, out):
    return [exe, "run", "--seed", str(seed), "--shard", str(shard), "--cases", str(cases), "--time", "100000", "--out", out]


def replay_file(exe, path, timeout=120):
    return run_bin([exe, "replay", path], timeout)


def main():
    if sys.argv[1] == "--setup":
        build(sorted(PROPS))
        print("setup done")
        return 0
    if sys.argv[1] == "--build":
        build(sys.argv[2:])
        return 0
    if sys.argv[1] == "--replay":
        pid, path = sys.argv[2], sys.argv[3]
        build([pid])
        exe = exe_of(pid)
        first = open(path).readline()
        if first.startswith("# probe "):
            r = run_bin([exe, "probe", first.split()[2]], 300)
            sys.stdout.write(r.stdout.decode("utf-8", "replace"))
            return 1 if b"PRESENT" in r.stdout else 0
        if first.startswith("# shard "):
            a = first.split()[2:]
            r = run_bin(shard_args(exe, a[0], a[1], a[2], path + ".out"), 1200)
            if r.returncode == 3:
                sys.stdout.write(open(path + ".out.info").read())
            return 1 if r.returncode == 3 else 0
        r = replay_file(exe, path)
        sys.stdout.write(r.stdout.decode("utf-8", "replace"))
        sys.stdout.write(r.stderr.decode("utf-8", "replace")[-8000:])
        return r.returncode
    pid = sys.argv[1]
    if pid not in PROPS:
        die("unknown property " + pid)
    p = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    build([pid])
    tb = time.time() - t0
    exe = exe_of(pid)
    work = os.path.join(BUILD, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replays = os.path.join(BUILD, "replays", pid)
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    violations = []

    # known findings, and regression probes of repaired defects
    kf = known(pid)
    pr = run_bin([exe, "probe"], 600)
    nprobe = 0
    if pr.returncode != 0:
        die("probe run failed: " + pr.stderr.decode("utf-8", "replace")[-2000:])
    for line in pr.stdout.decode("utf-8", "replace").splitlines():
        part = line.split("\t")
        nprobe += 1
        if part[0] == "PRESENT":
            if part[1] in kf:
                print(f"KNOWN-FINDING: property={pid} {part[1]} {kf[part[1]]}", flush=True)
            else:
                path = os.path.join(replays, f"probe-{part[1]}.replay")
                with open(path, "w") as f:
                    f.write(f"# probe {part[1]}\n# {part[2]}\n")
                violations.append((path, f"probe {part[1]}: {part[2]}"))

    budget = p[tier]
    nsh = NPROC
    total = budget["cases"]
    tmax = budget["time"]
    procs = []
    for i in range(nsh):
        out = os.path.join(work, f"s{i}.json")
        n = total // nsh
        procs.append((i, out, subprocess.Popen(
            [exe, "run", "--seed", str(seed), "--shard", str(i), "--cases", str(n), "--time", str(tmax), "--out", out],
            stdout=open(os.path.join(work, f"s{i}.out"), "wb"), stderr=open(os.path.join(work, f"s{i}.err"), "wb"),
            env=env())))
    agg = {"evaluations": 0, "discarded": 0, "capped": 0, "tags": {}}
    samples, hashes, fails = [], set(), []
    for i, out, pr_ in procs:
        try:
            rc = pr_.wait(timeout=tmax + 120)
        except subprocess.TimeoutExpired:
            pr_.kill()
            rc = -9
        if os.path.exists(out):
            try:
                d = json.load(open(out))
                agg["evaluations"] += d["evaluations"]
                agg["discarded"] += d["discarded"]
                agg["capped"] += 1 if d["capped"] else 0
                for k, v in d["tags"].items():
                    agg["tags"][k] = agg["tags"].get(k, 0) + v
                samples += d["samples"][-3:]
                b = open(out + ".hashes", "rb").read()
                hashes.update(struct.unpack(f"<{len(b)//8}Q", b))
            except (ValueError, OSError, KeyError):
                pass
        if rc == 3:
            fails.append((i, out))
        elif rc != 0:
            sys.stdout.write(open(os.path.join(work, f"s{i}.err"), "rb").read().decode("utf-8", "replace")[-3000:])
            die(f"shard {i} ended with status {rc}")
    for i, out in fails[:3]:
        src = out + ".fail"
        bad = 0
        for _ in range(3):
            try:
                if replay_file(exe, src).returncode == 1:
                    bad += 1
            except subprocess.TimeoutExpired:
                pass
        if bad < 3:
            print(f"shard {i}: a failure did not reproduce in {3-bad} of 3 replays; info:", flush=True)
            sys.stdout.write(open(out + ".info").read()[-3000:] + "\n")
            if bad == 0:
                # The failure may need the cases before it (state kept by the library): replay the whole shard.
                # Between threads one occurrence is proof: every schedule has to give the same results.
                args = shard_args(exe, seed, i, total // nsh, out + ".again")
                if p.get("schedules") or all(run_bin(args, tmax + 400).returncode == 3 for _ in range(2)):
                    dst = os.path.join(replays, f"shard-{seed}-{i}.replay")
                    with open(dst, "w") as f:
                        f.write(f"# shard {seed} {i} {total // nsh}\n")
                        f.write("".join("# " + x for x in open(out + ".info")))
                    violations.append((dst, open(out + ".info").read()[-3000:]))
                    break
                continue
        mini = os.path.join(work, f"s{i}.min")
        best = src
        try:
            r = run_bin([exe, "shrink", src, mini, "--time", "25"], 120)
            if r.returncode == 1 and os.path.exists(mini) and replay_file(exe, mini).returncode == 1:
                best = mini
        except subprocess.TimeoutExpired:
            pass
        r = replay_file(exe, best)
        text = r.stdout.decode("utf-8", "replace")
        dst = os.path.join(replays, hashlib.sha1(open(best, "rb").read()).hexdigest()[:12] + ".replay")
        with open(dst, "w") as f:
            for line in text.splitlines():
                f.write("# " + line + "\n")
            f.write(open(best).read())
        err = r.stderr.decode("utf-8", "replace")
        k = max(err.find("ERROR: " + SAN[san(pid)][2]), err.find("WARNING: " + SAN[san(pid)][2]))
        violations.append((dst, text[-3000:] + ("\n" + err[k:k + 2500] if k >= 0 else "")))
        break

    wall = time.time() - t0
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["evaluations"],
            "distinct_nontrivial": len(hashes),
            "rule": p["rule"],
            "samples": samples[:10],
            "discarded": agg["discarded"],
            "shards": nsh,
            "shards_stopped_by_time": agg["capped"],
            "probes_of_known_or_repaired_defects": nprobe,
            "distribution": dict(sorted(agg["tags"].items())),
        },
        "assumptions": p.get("assumptions", []) + [
            "libdynd and the harness are built from the working tree with clang 18, -O0, " + SAN[san(pid)][2],
        ],
        "wall_s": round(wall, 2),
        "build_s": round(tb, 2),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{pid} {tier} seed={seed}: {agg['evaluations']} cases, {len(hashes)} distinct non-trivial, "
          f"{agg['discarded']} discarded, {agg['capped']} shards capped by time, build {tb:.0f} s, total {wall:.0f} s", flush=True)
    if violations:
        for path, text in violations:
            print(text)
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if fails:
        # failures that never reproduced: no verdict about them
        die("a failure did not reproduce; see above")
    if agg["evaluations"] < min(200, total // 20):
        die("too few cases were evaluated")
    return 0


sys.exit(main())
