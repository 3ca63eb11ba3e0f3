"""Runs Kani over the harness crates of /verif/kani, replays counterexamples natively, writes evidence.

Outcome protocol: 0 held, 1 VIOLATION printed, 2 no verdict (error of the check).
"""
import glob, json, os, random, re, shutil, subprocess, sys, time

V = "/verif"
NATIVE_TC = "nightly-2025-03-20"
KD = V + "/build/kd"
ND = V + "/build/native"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
BUDGET = 840.0 if TIER == "quick" else 6 * 3600.0


class NoVerdict(Exception):
    pass


def left():
    return BUDGET - (time.time() - T0)


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def run(cmd, cwd, timeout=None, e=None):
    """-> (rc, stdout+stderr); rc None on timeout. The whole process group is ended on timeout."""
    timeout = min(timeout or 1e9, max(5.0, left()))
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def forget(target_dir):
    """Make cargo rebuild the crate under check from its current source, whatever the time stamps say."""
    for d in glob.glob(target_dir + "/**/.fingerprint/auto_enums-*", recursive=True) + \
            glob.glob(target_dir + "/**/.fingerprint/vk-*", recursive=True):
        shutil.rmtree(d, ignore_errors=True)


class Part:
    """One feature of one harness crate = one Kani run."""

    def __init__(self, crate, feature, unwind=None):
        self.crate, self.feature = crate, feature
        self.dir = f"{V}/kani/{crate}"
        self.bin = f"vk-{crate}-replay"

    def features(self):
        f = self.feature
        if TIER == "thorough":
            f += ",deep"
        return f


def native_build(part, release=False, check=False, extra=()):
    cmd = ["cargo", "+" + NATIVE_TC, "check" if check else "build", "--offline", "--features", part.features(),
           "--target-dir", ND]
    cmd += list(extra)
    cmd += ["--lib"] if check else ["--bin", part.bin]
    if release:
        cmd.append("--release")
    return run(cmd, part.dir, 600)


def kani(part, extra=(), timeout=None):
    os.makedirs(V + "/build", exist_ok=True)
    js = f"{V}/build/out-{part.crate}-{part.feature}-{os.getpid()}.json"
    if os.path.exists(js):
        os.remove(js)
    cmd = ["cargo", "kani", "--lib", "--features", part.features(), "--target-dir", KD, "-j", "8",
           "--output-format", "terse", "-Z", "unstable-options", "--no-assertion-reach-checks", "--harness-timeout",
           "300s" if TIER == "quick" else "3600s", "--export-json", js, *extra]
    t = time.time()
    rc, out = run(cmd, part.dir, timeout)
    data = None
    if os.path.exists(js):
        try:
            data = json.load(open(js))
        except ValueError:
            data = None
        os.remove(js)
    return rc, out, data, time.time() - t


def norm(h):
    return "::".join(p for p in h.split("::") if p not in ("proofs", "run", "proof"))


def compile_failure(prop, part, out):
    """Kani produced nothing: does the harness crate, which only uses the public macros, compile natively?"""
    rc, o = native_build(part, check=True)
    if rc is None:
        raise NoVerdict("native build timed out")
    if rc == 0:
        raise NoVerdict("Kani gave no result although the harness crate compiles:\n" + out[-3000:])
    if "could not compile `auto_enums`" in o or "could not compile `vk-" not in o:
        raise NoVerdict("the crate under check does not build:\n" + o[-3000:])
    errs = [l for l in o.splitlines() if l.startswith("error")]
    return dict(kind="expansion-rejected", harness=f"{part.crate}/{part.feature}",
                what="programs on which the macro must succeed are no longer accepted by the compiler: " + "; ".join(errs[:3]),
                cmd=f"cd {part.dir} && cargo +{NATIVE_TC} check --offline --lib --features {part.features()} --target-dir {ND}",
                log=o[-6000:])


def playback_bytes(out):
    """Byte vectors of `concrete_vals` in Kani's printed playback tests -> list of hex strings."""
    res = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        b = []
        for v in re.finditer(r"^\s*vec!\[([0-9, ]*)\]", m.group(1), re.M):
            b += [int(x) for x in v.group(1).split(",") if x.strip()]
        res.append(b)
    return res


def replay(part, harness, hexes):
    """Run the harness body natively on each input in both profiles -> (reproduced?, log)."""
    log = []
    for release in (False, True):
        rc, o = native_build(part, release)
        if rc != 0:
            log.append("native build failed: " + o[-1500:])
            continue
        exe = f"{ND}/{'release' if release else 'debug'}/{part.bin}"
        for h in hexes:
            rc, o = run([exe, harness, h], part.dir, 20)
            log.append(f"{'release' if release else 'dev'} {harness} {h}: rc={rc} {o[-600:].strip()}")
            if rc is None or rc in (101, 134, 139) or (rc is not None and rc < 0):
                return True, log, f"{exe} {harness} {h}"
    return False, log[:24] + log[-4:], None


def typical():
    """Inputs on which a violation that the solver has shown to exist, but gave no assignment for, may be replayed."""
    rng = random.Random(SEED)
    res = ["0" * 48, "01" * 24, "02" * 24, "03" * 24] + ["%048x" % rng.getrandbits(192) for _ in range(12)]
    # few bytes set, so that lengths and choices stay within their ranges; and lengths at which code changes its ways
    for i in range(4000):
        b = bytearray(0 if rng.random() < .6 else rng.choice([1, 1, 2, 3, 4, rng.getrandbits(8)]) for _ in range(40))
        if i % 2:
            v = rng.choice([5, 8, 9, 15, 16, 17, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 1030, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536])
            o = rng.randrange(1, 32)
            b[o:o + 2 + 2 * (v > 65535 or rng.random() < .5)] = v.to_bytes(2, "little") if v < 65536 else v.to_bytes(4, "little")
        res.append(bytes(b[:40]).hex())
    return res


def failing(prop, part, r):
    h = r["harness_id"]
    bad = [c for c in r.get("checks", []) if c["status"] == "Failure"]
    # the assignment: first with small buffers, where the crate has that feature (playback keeps the whole formula,
    # which is too large with the full ones); then inputs with typical lengths; then at full size
    small = part.crate == "derive"
    ok, log, cmd, from_solver = False, [], None, False
    for how in (("small", "typical", "full") if small else ("full", "typical")):
        if ok or left() < 60:
            break
        if how == "typical":
            hexes = typical()
        else:
            feats = part.features() + (",small" if how == "small" else "")
            t = 150 if how == "small" else 400
            rc, out = run(["cargo", "kani", "--lib", "--features", feats, "--target-dir", KD, "-Z", "unstable-options",
                           "--no-assertion-reach-checks", "--harness", h, "--exact", "--harness-timeout", f"{min(300, t)}s", "-Z", "concrete-playback",
                           "--concrete-playback=print"], part.dir, t)
            hexes = list(dict.fromkeys("".join("%02x" % v for v in b) for b in playback_bytes(out)))
        if hexes:
            ok, lg, cmd = replay(part, norm(h), hexes)
            log += lg
            from_solver = ok and how != "typical"
    what = "; ".join(sorted({c["description"].strip('"') for c in bad}))[:400]
    return ok, dict(kind="counterexample" if from_solver else "divergence", harness=h, what=what, cmd=cmd,
                    build=f"cd {part.dir} && cargo +{NATIVE_TC} build --offline --bin {part.bin} --features {part.features()} --target-dir {ND}",
                    log="\n".join(log))


def check_part(prop, part, stats):
    """-> violation dict or None."""
    rc, out, data, wall = kani(part)
    if data is None:
        if rc is None:
            raise NoVerdict("time budget used up in " + part.feature)
        return compile_failure(prop, part, out)
    res = data["verification_results"]["results"]
    cb = {c["harness_id"]: c.get("cbmc_stats") or {} for c in data.get("cbmc", [])}
    fails, unknown = [], []
    if not res:
        raise NoVerdict("no harness was run for " + part.feature)
    for r in res:
        st = cb.get(r["harness_id"], {})
        stats["harnesses"] += 1
        stats["solver_s"] += float(st.get("runtime_decision_procedure_s") or 0)
        stats["symex_s"] += float(st.get("runtime_symex_s") or 0)
        stats["vccs"] += int(st.get("vccs_generated") or 0)
        stats["vccs_solved"] += int(st.get("vccs_remaining") or 0)
        checks = r.get("checks", [])
        stats["assertions"] += sum(1 for c in checks if c.get("category") != "cover")
        for c in checks:
            if "/auto_enums" in str(c.get("location")) or c.get("function", "").startswith("<"):
                pass
        fn = sorted({c["function"] for c in checks if c.get("function")})
        stats["functions"].update(f for f in fn if " as " in f)
        cov = [c for c in checks if c.get("category") == "cover" or c["status"] in ("Satisfied", "Unsatisfiable")]
        if r["status"] == "Success":
            if any(c["status"] == "Satisfied" for c in cov):
                stats["reached"] += 1
            else:
                unknown.append((r["harness_id"], "the end of the harness is unreachable"))
        elif any(c["status"] == "Failure" for c in checks):
            fails.append(r)
        else:
            unknown.append((r["harness_id"], "undetermined (" + str(r["status"]) + ")"))
        if len(stats["samples"]) < 6 and r["status"] == "Success":
            stats["samples"].append(dict(harness=norm(r["harness_id"]), verdict="unsat: agrees with the reference for every input",
                                         vccs=st.get("vccs_generated"), solver_s=st.get("runtime_decision_procedure_s"),
                                         wall_ms=r.get("duration_ms")))
    # real assertion failures first, bare unwinding failures last
    fails.sort(key=lambda r: all("unwinding" in c["description"] for c in r["checks"] if c["status"] == "Failure"))
    nonrep = []
    for r in fails[:6]:
        ok, v = failing(prop, part, r)
        if ok:
            v["other_failing"] = [norm(x["harness_id"]) for x in fails if x is not r]
            return v
        nonrep.append(v)
    if nonrep:
        raise NoVerdict("counterexample did not reproduce natively:\n" + json.dumps(nonrep, indent=1)[:5000])
    # what has no verdict at full size (time, memory) is decided with small buffers, where the crate has them
    if unknown and part.crate == "derive" and all("undetermined" in u for _, u in unknown):
        small = Part(part.crate, part.feature + ",small")
        only = [x for h, _ in unknown for x in ("--harness", h)]
        rc, out, data, wall = kani(small, (*only, "--exact"), max(60.0, left() - 150))
        rs = data["verification_results"]["results"] if data else []
        for r in rs:
            if r["status"] != "Success" and any(c["status"] == "Failure" for c in r.get("checks", [])):
                ok, v = failing(prop, part, r)
                if ok:
                    return v
        held = {r["harness_id"] for r in rs if r["status"] == "Success"
                and any(c["status"] == "Satisfied" for c in r.get("checks", []))}
        stats["reduced"] = stats.get("reduced", []) + sorted(norm(h) for h, _ in unknown if h in held)
        unknown = [(h, u) for h, u in unknown if h not in held]
    if unknown:
        raise NoVerdict("harnesses without verdict: " + json.dumps(unknown[:10]))
    return None


def known_findings(prop):
    """Listed findings of this property: [(key, text)]; `fixed:` entries suppress nothing."""
    res = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def finish(prop, level, coverage, assumptions, violation):
    os.makedirs(V + "/evidence", exist_ok=True)
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=coverage, assumptions=assumptions,
              wall_s=round(time.time() - T0, 1), violations=1 if violation else 0)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    if violation:
        rp = f"{V}/evidence/replay-{prop}.txt"
        with open(rp, "w") as f:
            for k, v in violation.items():
                f.write(f"{k}: {v}\n")
        print(f"{prop}: {violation['kind']} in {violation['harness']}: {violation['what']}")
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    print(f"{prop}: held on everything explored ({time.time() - T0:.0f}s)")
    sys.exit(0)


def new_stats():
    return dict(harnesses=0, reached=0, assertions=0, vccs=0, vccs_solved=0, solver_s=0.0, symex_s=0.0,
                functions=set(), samples=[])


def coverage(stats, **kw):
    fns = sorted(stats["functions"])
    c = dict(programs=stats["harnesses"], disagreements_checked=stats["assertions"], samples=stats["samples"],
             reachability_witnesses_satisfied=stats["reached"], verification_conditions=stats["vccs"],
             conditions_sent_to_solver=stats["vccs_solved"], solver_s=round(stats["solver_s"], 2),
             symbolic_execution_s=round(stats["symex_s"], 2), solver="CBMC 6 + CaDiCaL via Kani 0.68",
             functions_encoded=len(fns), functions_sample=fns[:40])
    if stats.get("reduced"):
        c["decided_with_small_buffers_only"] = stats["reduced"]
    c.update(kw)
    return c
