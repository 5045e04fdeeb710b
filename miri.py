"""Run the programs of /verif/miri under Miri, with a different program and schedule per seed."""
import os, re, subprocess, time

DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "miri")
FLAGS = "-Zmiri-permissive-provenance -Zmiri-backtrace=full"
BAD = re.compile(r"error: (Undefined Behavior|memory leaked|the evaluated program (deadlocked|leaked)|abnormal termination)|"
                 r"panicked at|\b(LIN|LEN|ITER|VALUE|CONV): ")


def env(c, **kw):
    return c.env(MIRI_SYSROOT=os.path.join(c.BUILD, "miri-sysroot"), RUSTFLAGS="--force-warn=dead_code",
                 CARGO_TARGET_DIR=os.path.join(c.BUILD, "miri"), **kw)


def ready(c):
    if "miri" in c.BUILT:
        return
    t = time.time()
    p = subprocess.run(["cargo", "+nightly", "miri", "setup"], cwd=DIR, env=env(c), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode:
        raise c.Inconclusive("miri setup failed: " + p.stdout[-800:])
    c.BUILT["miri"] = True
    c.log(f"prepared Miri in {time.time() - t:.1f}s")


def call(c, flags, timeout):
    p = subprocess.Popen(["cargo", "+nightly", "miri", "run", "--offline", "-q"], cwd=DIR, env=env(c, MIRIFLAGS=flags),
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return None, out, err
    return p.returncode, out, err


def seed_of(err):
    m = re.search(r"FAILING SEED: (\d+)|seed:? (\d+) failed|failed with seed (\d+)|-Zmiri-seed=(\d+)", err, re.I)
    return int(next(g for g in m.groups() if g)) if m else None


def single(c, seed):
    rc, out, err = call(c, f"{FLAGS} -Zmiri-seed={seed}", 300)
    return rc, out, err


def summary(err):
    m = BAD.search(err)
    lines = [x for x in err.splitlines() if x.strip() and not x.startswith("warning")]
    i = next((i for i, x in enumerate(lines) if BAD.search(x)), 0)
    where = [x.strip() for x in lines[i:] if "/repo/" in x or "inside `" in x][:8]
    return (lines[i].strip() if m else err[-300:]) + " | " + " ; ".join(where)


def run(c, prop, stage, total):
    ready(c)
    secs = stage["secs"] * c.SCALE * (stage.get("deep", 8) if c.TIER == "thorough" else 1)
    end = time.time() + secs
    first = c.mix(c.SEED, prop, "miri") % 1_000_000 * 1000
    obs = total.setdefault("observed_miri", {"programs": 0, "operations": 0, "value_reads": 0})
    batch = 32
    while time.time() < end:
        rc, out, err = call(c, f"{FLAGS} -Zmiri-many-seeds={first}..{first + batch}", 400)
        ran = re.findall(r"^ran ops=(\d+) reads=(\d+)", out, re.M)
        total["evaluations"] = total.get("evaluations", 0) + len(ran)
        total["distinct_nontrivial"] = total.get("distinct_nontrivial", 0) + sum(int(r) > 5 for _, r in ran)
        obs["programs"] += len(ran)
        obs["operations"] += sum(int(o) for o, _ in ran)
        obs["value_reads"] += sum(int(r) for _, r in ran)
        if len(total.setdefault("samples", [])) < 8 and ran:
            total["samples"].append({"mode": "miri", "seeds": [first, first + batch], "first": out.split("\n")[0]})
        if rc is None:
            raise c.Inconclusive("miri did not finish a batch of programs")
        if rc:
            seed = seed_of(err)
            if seed is not None:
                rc2, _, err2 = single(c, seed)
                if rc2:
                    err = err2
            if "unsupported operation" in err or not BAD.search(err):
                raise c.Inconclusive("miri failed: " + err[-1500:])
            return [{"violation": True, "prop": prop, "mode": "miri", "seed": seed if seed is not None else first, "build": "miri",
                     "violations": [{"tag": "MIRI", "msg": summary(err)}], "stderr": err[-6000:]}]
        first += batch
    return []


def replay(c, v):
    ready(c)
    rc, out, err = single(c, v["seed"])
    print(out, err)
    return 1 if rc else 0
