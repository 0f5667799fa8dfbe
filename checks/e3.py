"""Engine E3: Kani (CBMC) over the real integer helpers; counterexamples are replayed natively with the real big-integer library."""
import json, os, re, subprocess, time
from common import *

TABLE = {
    "C02": dict(
        crate="fpk", sources=["src/finitefield/fp_gen.rs", "src/fields.rs"], functions=["Fp::{iszero, equals, select, set_cond, condswap} (fp_gen.rs) at the FESTA modulus"],
        bounds=["all pairs of reduced 21-word operands, both control words"],
        groups=[dict(features="", quick="iszero equals select set_cond condswap", thorough="")]),
    "C22": dict(
        crate="fpb", sources=["src/finitefield/fp_gen.rs", "src/fields.rs"], functions=["Fp::{pow_big, set_pow} down to set_pow_ext (stubbed)"],
        bounds=["pow_big: every exponent below 2^64 (the big-integer library replaced by a one-word stand-in)"],
        groups=[dict(features="", quick="pow_big_16 pow_big_64", thorough="")]),
    "C14": dict(
        sources=["src/discrete_log.rs"], functions=["xgcd_big, compute_crt, sqrt_floor (discrete_log.rs)"],
        bounds=["xgcd_big: all a, b below 2^6 with an inverse (2^8 thorough)", "compute_crt: all remainders for 13 lists of moduli (products up to 17496)",
                "sqrt_floor: every 16-bit argument, every argument from 2^32 - 2^17 - 1 on, 1024-wide windows around ten squares in between"],
        groups=[dict(features="", quick="sqrt_10 sqrt_16 sqrt_top crt_small crt_medium_0 crt_medium_1 crt_medium_4 sqrt_win_0 sqrt_win_1 sqrt_win_2 sqrt_win_3 sqrt_win_4 sqrt_win_5 sqrt_win_6 sqrt_win_7 sqrt_win_8 sqrt_win_9",
                     thorough="crt_medium_2 crt_medium_3"),
                dict(features="w16", quick="inverse_5 inverse_6", thorough="inverse_8")]),
}


def start(group, tier, lim, crate="kint"):
    names = group["quick"].split() + (group["thorough"].split() if tier == "thorough" else [])
    target = os.path.join(BUILD, ("kint" if crate == "kint" else crate + "-kani") + ("-" + group["features"] if group["features"] else ""))
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never")
    cmd = ["cargo", "kani", "-Z", "unstable-options", "-Z", "stubbing", "--harness-timeout", "%ds" % lim, "-j", "8" if len(names) > 4 else "3", "--output-format=terse", "--exact"]
    cmd += ["--features", group["features"]] if group["features"] else []
    for n in names:
        cmd += ["--harness", "proofs::" + n]
    d = os.path.join(VERIF, "harness", crate)
    return names, e, d, subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)


def parse(out):
    """harness -> dict(ok, failed=[descriptions], covers=(n, m), seconds)"""
    cur, res = {}, {}
    th = "0"
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): ?)?(.*)$", l)
        if m[1] is not None:
            th = m[1]
        t = m[2]
        m = re.match(r"Checking harness (\S+?)\.\.\.", t)
        if m:
            cur[th] = m[1].split("::")[-1]
            res[cur[th]] = dict(ok=None, failed=[], covers=None, seconds=0, why="")
        r = res.get(cur.get(th))
        if r is None:
            continue
        m = re.match(r"Failed Checks: (.*)", t)
        if m:
            r["failed"].append(m[1])
        m = re.match(r" \*\* (\d+) of (\d+) cover properties satisfied", t)
        if m:
            r["covers"] = (int(m[1]), int(m[2]))
        m = re.match(r"VERIFICATION:- (\S+)", t)
        if m:
            r["ok"] = m[1] == "SUCCESSFUL"
        if "timed out" in t.lower() or "out of memory" in t.lower():
            r["why"] = t.strip()
        m = re.match(r"Verification Time: ([\d.]+)s", t)
        if m:
            r["seconds"] = float(m[1])
    return res


def counterexample(name, e, d, features, lim):
    cmd = ["cargo", "kani", "-Z", "concrete-playback", "-Z", "stubbing", "--concrete-playback=print", "--exact", "--harness", "proofs::" + name]
    cmd += ["--features", features] if features else []
    try:
        out = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=lim).stdout
    except subprocess.TimeoutExpired:
        return []
    tests = []
    for t in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        tests.append([int.from_bytes(bytes(int(x) for x in v.split(",") if x.strip()), "little") for v in re.findall(r"^\s*vec!\[([^\]]*)\]", t, re.M)])
    return tests


def run(ck, spec=None):
    spec = spec or TABLE[ck.prop]
    ck.source(*spec["sources"])
    ck.functions += spec["functions"]
    ck.bounds += spec["bounds"]
    lim = 150 if ck.tier == "quick" else 1500
    exe = os.path.join(BUILD, "grp", "debug", "grp")
    running = [(g,) + start(g, ck.tier, lim, spec.get("crate", "kint")) for g in spec["groups"]]
    for g, names, e, d, pr in running:
        try:
            out, _ = pr.communicate(timeout=max(10, ck.left() - 60))
        except subprocess.TimeoutExpired:
            os.killpg(pr.pid, 9)
            out, _ = pr.communicate()
        res = parse(out)
        if not res:
            # the harness crate stands in for the rest of the library: a change it does not know leaves these parts undecided
            ck.incomplete.append("E3: harnesses do not build against the working tree: %s" % " / ".join(l for l in out.splitlines() if l.startswith("error"))[:400])
            continue
        for n in names:
            r = res.get(n)
            if r is None or r["ok"] is None or r["why"]:
                ck.incomplete.append("E3 %s: no answer within %d s" % (n, lim))
                continue
            ck.queries += 1
            ck.solver_ms += int(1000 * r["seconds"])
            ck.parts.append(dict(harness=n, kani=True, verified=r["ok"], seconds=r["seconds"], covers=r["covers"], failed=r["failed"]))
            if r["ok"]:
                ck.states += 1
                ck.transitions += 1
                if r["covers"] and r["covers"][0] < r["covers"][1]:
                    ck.incomplete.append("E3 %s: %d of %d covers reached" % (n, *r["covers"]))
                continue
            real = [f for f in r["failed"] if "unwinding" not in f]
            if not real:
                ck.incomplete.append("E3 %s: a loop runs longer than the unwinding bound" % n)
                continue
            hit = False
            for vals in counterexample(n, e, d, g["features"], max(20, min(lim * 2, ck.left() - 30))):
                if spec.get("crate"):
                    cmd = ["python3", os.path.join(VERIF, "checks", "e1run.py"), "kani", n] + [str(v) for v in vals]
                else:
                    cmd = [exe, "int", n] + [str(v) for v in vals]
                ck.replayed += 1
                rp = subprocess.run(cmd, capture_output=True, text=True)
                if rp.returncode == 1:
                    hit = True
                    src = "exec " + " ".join(cmd) if spec.get("crate") else "cd %s/harness/grp && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%s cargo build -q && exec %s" % (VERIF, os.path.join(BUILD, "grp"), " ".join(cmd))
                    ck.violation("E3", "; ".join(real)[:200], "%s: %s" % (n, rp.stdout.strip()[:200]), src)
                    break
            if not hit:
                ck.incomplete.append("E3 %s: failed (%s), but no counterexample reproduces natively" % (n, "; ".join(real)[:150]))
