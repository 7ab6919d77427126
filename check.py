#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]
   check.py --setup

Builds the explorer of a property against /repo's working tree for every target
CPU, runs it to exhaustion of its bounds, and reports.
Exit 0: held on everything explored. Exit 1: VIOLATION. Otherwise: an error."""
import concurrent.futures as cf
import fcntl
import fnmatch
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
sys.path.insert(0, HERE)
from props import CFG  # noqa: E402


def have_avx2():
    with open("/proc/cpuinfo") as f:
        return re.search(r"^flags\s*:.*\bavx2\b", f.read(), re.M) is not None


def cpus(cfg, tier="quick"):
    c = list(cfg.get("cpus", ["haswell", "nehalem", "x86-64"]))
    if tier == "thorough" and "cpus_thorough" in cfg:
        c = list(cfg["cpus_thorough"])
    elif tier == "thorough":
        c += [x for x in ("sandybridge", "core2") if x not in c]
    return c if have_avx2() else [x for x in c if x != "haswell"]


def tdir(cpu, profile):
    """A profile may name a feature: debug, release, debug+trace, ..."""
    return os.path.join(TARGET, "-".join([cpu] + profile.split("+")[1:]))


def env_for(cpu, profile):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "FASTER"))}
    home = os.path.join(TARGET, "cargo-home")
    os.makedirs(home, exist_ok=True)
    conf = '[source.crates-io]\nreplace-with = "vendored-sources"\n[source.vendored-sources]\ndirectory = "/opt/vp/vendor"\n'
    p = os.path.join(home, "config")
    if not os.path.exists(p) or open(p).read() != conf:
        tmp = f"{p}.{os.getpid()}"
        with open(tmp, "w") as f:
            f.write(conf)
        os.replace(tmp, p)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="nightly-2020-07-01", CARGO_HOME=home,
             CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUSTFLAGS=f"-C target-cpu={cpu} -C inline-threshold=25 -A warnings", CARGO_TARGET_DIR=tdir(cpu, profile))
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


def digest(paths):
    h = hashlib.sha256()
    for root in paths:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def stale(cpu, profile):
    """Cargo goes by time stamps; make sure that it sees every change of content."""
    for pkg, paths in (("faster", [f"{REPO}/src", f"{REPO}/Cargo.toml"]), ("mc", [f"{HERE}/mc/src", f"{HERE}/mc/Cargo.toml"])):
        d = digest(paths)
        stamp = os.path.join(tdir(cpu, profile), f".content-{pkg}-{profile}")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != d:
            fp = os.path.join(tdir(cpu, profile), profile.split("+")[0], ".fingerprint")
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if re.fullmatch(rf"{pkg}-[0-9a-f]+", x):
                        shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
            os.makedirs(os.path.dirname(stamp), exist_ok=True)
            with open(stamp, "w") as f:
                f.write(d)


def build(cpu, profile, bins):
    stale(cpu, profile)
    base, *features = profile.split("+")
    cmd = ["cargo", "build", "--offline"] + (["--release"] if base == "release" else [])
    if features:
        cmd += ["--features", ",".join(features)]
    for b in bins:
        cmd += ["--bin", b]
    try:
        r = subprocess.run(cmd, cwd=f"{HERE}/mc", env=env_for(cpu, profile), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
    except subprocess.TimeoutExpired:
        return None, "took more than 1500 s"
    return r.returncode, r.stdout.decode("utf-8", "replace")


def bins_for(cfg, cpu, profile, tier):
    only = cfg.get("bin_cpus", {}) if tier == "quick" else {}
    return [b for b in cfg["bins"] if cpu in only.get(b, [cpu]) and profile in cfg.get("bin_profiles", {}).get(b, [profile])]


def build_all(jobs, setup=False):
    """jobs: {(cpu, profile): [bins]}"""
    os.makedirs(TARGET, exist_ok=True)
    env_for("x86-64", "debug")  # writes cargo's configuration
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(len(jobs)) as ex:
            fs = {k: ex.submit(build, k[0], k[1], v) for k, v in jobs.items()}
            bad = False
            for k, f in fs.items():
                rc, out = f.result()
                if rc is None and setup:
                    print(f"build for {k[0]} ({k[1]}) {out}: left to the checks")
                elif rc != 0:
                    bad = True
                    print(f"build for {k[0]} ({k[1]}) failed:\n{out[-4000:]}")
            if bad:
                sys.exit(2)


def known(pid):
    res = []
    with open(os.path.join(HERE, "KNOWN_FINDINGS")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) cpu=(\S+) site=(\S+) case=(.*?) :: (.*)", line)
            if m and m.group(1) == pid:
                res.append(m.groups()[1:])
    return res


def run_one(pid, tier, cpu, profile, b, shard, shards, extra=(), timeout=None):
    exe = os.path.join(tdir(cpu, profile), profile.split("+")[0], b)
    cmd = [exe, "--prop", pid, "--tier", tier, "--shard", f"{shard}/{shards}", *CFG[pid].get("args", []), *extra]
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix="mc-") as cwd:
        try:
            r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            rc, out, err = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, err = None, e.stdout or b"", e.stderr or b""
    return dict(cpu=cpu, profile=profile, bin=b, shard=shard, rc=rc, out=out.decode("utf-8", "replace"),
                err=err.decode("utf-8", "replace"), wall=time.time() - t0)


def parse(r):
    viol, summary = [], None
    for line in r["out"].splitlines():
        if line.startswith('{"k":"violation"'):
            viol.append(json.loads(line))
        elif line.startswith('{"k":"summary"'):
            summary = json.loads(line)
        elif line.startswith("CRASH\t"):
            _, kind, site, case = line.split("\t", 3)
            viol.append(dict(site=site, case=case.strip(), msg=kind, crash=True))
    return viol, summary


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        jobs = {}
        for cfg in CFG.values():
            for cpu in cpus(cfg):
                for pr in cfg.get("profiles", ["debug"]):
                    for b in bins_for(cfg, cpu, pr, "quick"):
                        jobs.setdefault((cpu, pr), [])
                        if b not in jobs[(cpu, pr)]:
                            jobs[(cpu, pr)].append(b)
        build_all(jobs, setup=True)
        return 0
    pid = a[0]
    cfg = CFG[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--replay" in a:
        replay = json.load(open(a[a.index("--replay") + 1]))
        tier = replay.get("tier", tier)
    t0 = time.time()
    profiles = cfg.get("profiles", ["debug"])
    if tier == "thorough":
        profiles = cfg.get("profiles_thorough", ["debug", "release"])
    confs = [(c, p) for c in cpus(cfg, tier) for p in profiles]
    if replay and not (cfg.get("portable") and replay.get("digest")):
        confs = [(replay["cpu"], replay["profile"])]
    build_all({k: [replay["bin"]] if replay and not replay.get("digest") else bins_for(cfg, k[0], k[1], tier) for k in confs})
    t_build = time.time() - t0

    if replay and replay.get("digest"):
        seen = {}
        confs = [(c, p) for (c, p) in confs if replay["bin"] in bins_for(cfg, c, p, tier)]
        for c, p in confs:
            _, summary = parse(run_one(pid, tier, c, p, replay["bin"], 0, 1, ["--site", replay["site"], "--case", replay["case"]]))
            for k, d in (summary or dict(digests={"crashed": ""}))["digests"].items():
                seen.setdefault(k, {}).setdefault(d, []).append(f"{c}/{p}")
        bad = [(k, v) for k, v in sorted(seen.items()) if len(v) > 1 or sum(map(len, v.values())) != len(confs)]
        for k, v in bad[:20]:
            print(k, v)
        if bad:
            print(f"VIOLATION property={pid} replay={a[a.index('--replay') + 1]}")
            return 1
        print("not reproduced")
        return 0
    if replay:
        extra = ["--site", replay["site"]]
        if replay.get("case") and not replay.get("crash"):
            extra += ["--case", replay["case"]]
        r = run_one(pid, tier, replay["cpu"], replay["profile"], replay["bin"], 0, 1, extra)
        viol, summary = parse(r)
        for v in viol:
            print(f"{v['site']} {v['case']}: {v['msg']}")
        if viol:
            print(f"VIOLATION property={pid} replay={a[a.index('--replay') + 1]}")
            return 1
        print("not reproduced" if summary else f"error: {r['rc']} {r['err']}")
        return 0 if summary else 2

    limit = 700 if tier == "quick" else 4 * 3600
    nproc = min(8, os.cpu_count() or 8)
    work = [(c, p, b, s) for b in cfg["bins"] for (c, p) in confs if b in bins_for(cfg, c, p, tier) for s in range(cfg.get("shards", 8))]
    results = []
    with cf.ThreadPoolExecutor(nproc) as ex:
        fs = [ex.submit(run_one, pid, tier, c, p, b, s, cfg.get("shards", 8), (), max(30, limit - (time.time() - t0))) for (c, p, b, s) in work]
        for f in fs:
            results.append(f.result())

    viols, errors = [], []
    cov = dict(states=0, transitions=0, traces=0)
    sites, samples, digests, dbin, configs, outcomes = {}, [], {}, {}, {}, {}
    for r in results:
        v, s = parse(r)
        for x in v:
            viols.append(dict(x, cpu=r["cpu"], profile=r["profile"], bin=r["bin"], tier=tier))
        if r["rc"] not in (0, 77) or (r["rc"] == 0 and s is None) or (r["rc"] == 77 and not v):
            errors.append(f"{r['bin']} on {r['cpu']}/{r['profile']} shard {r['shard']}: exit {r['rc']} {r['err'][-500:]}")
        if s:
            for k in cov:
                cov[k] += s[k]
            key = f"{r['cpu']}/{r['profile']}"
            configs[key] = configs.get(key, 0) + s["traces"]
            outcomes[key] = outcomes.get(key, 0) + s["outcomes"]
            for k, n in s["sites"].items():
                sites[k] = sites.get(k, 0) + n
            samples += s["samples"][:1]
            for k, d in s["digests"].items():
                dbin[k] = r["bin"]
                digests.setdefault(k, {}).setdefault(d, set()).add(key)
    if cfg.get("portable"):
        for k, ds in sorted(digests.items()):
            seen = set().union(*ds.values())
            if len(ds) > 1:
                text = "; ".join(f"{d}: {','.join(sorted(c))}" for d, c in sorted(ds.items()))
                first = sorted(sorted(c)[0] for c in ds.values())[0].split("/")
                site, _, case = k.partition("|")
                viols.append(dict(site=site, case=case, digest=True, msg=f"results differ between targets: {text}", cpu=first[0], profile=first[1], bin=dbin[k], tier=tier))
            elif not viols and not errors and len(seen) != len(confs):
                errors.append(f"{k} was not run on every target: {seen}")

    fresh, listed = [], {}
    for v in viols:
        for (c, site, case, text) in known(pid):
            if fnmatch.fnmatchcase(v["cpu"], c) and fnmatch.fnmatchcase(v["site"], site) and fnmatch.fnmatchcase(v["case"], case):
                listed[text] = listed.get(text, 0) + 1
                break
        else:
            fresh.append(v)
    for text in listed:
        print(f"KNOWN-FINDING: property={pid} {text}")

    empty = sorted(k for k, n in sites.items() if n == 0)
    if not fresh and not errors and (cov["traces"] == 0 or len(sites) < cfg.get("min_sites", 1)):
        errors.append(f"explored only {len(sites)} sites, {cov['traces']} traces")
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=dict(states=cov["states"], transitions=cov["transitions"], traces_validated_against_impl=cov["traces"],
                            samples=samples[:12], exhaustive=not errors and not viols, bounds=cfg["bounds"][tier] if isinstance(cfg["bounds"], dict) else cfg["bounds"],
                            traces_per_configuration=configs, distinct_outcomes_per_configuration=outcomes,
                            sites=len(sites), sites_without_cases=len(empty),
                            traces_per_site=dict(sorted(sites.items())) if len(sites) <= 400 else dict(sorted(sites.items())[:400]),
                            known_findings=listed, build_s=round(t_build, 1)),
              assumptions=cfg.get("assumptions", []), wall_s=round(wall, 1), violations=len(fresh))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    if fresh:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        shown = set()
        for v in fresh:
            if len(shown) >= 20:
                break
            key = (v["site"], v["cpu"])
            if key in shown:
                continue
            shown.add(key)
            name = re.sub(r"[^A-Za-z0-9.]+", "_", f"{v['cpu']}-{v['profile']}-{v['site']}")[:80]
            path = os.path.join(HERE, "replay", f"{pid}-{name}.json")
            with open(path, "w") as f:
                json.dump(dict(v, property=pid, command=f"python3 {HERE}/check.py {pid} --replay {path}"), f, indent=1)
            print(f"{v['cpu']}/{v['profile']} {v['site']} [{v['case']}]: {v['msg'][:600]}")
            print(f"VIOLATION property={pid} replay={path}")
        print(f"{len(fresh)} violations reported")
        return 1
    for e in errors[:10]:
        print("error:", e)
    if errors:
        return 2
    print(f"{pid} held: {cov['states']} states, {cov['transitions']} transitions, {cov['traces']} traces on the real code, {len(confs)} configurations, {wall:.1f} s (build {t_build:.1f} s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
