#!/usr/bin/env python3
"""Decides one property: model-checks the specification, executes scripts and
seeded cases on the code built from /repo, and lets TLC accept or reject every
recorded event.

  check.py setup          builds the harness
  check.py <property>     exit 0 held, 1 violated, 2 tool error

Environment: VERIF_SEED, VERIF_TIER (quick or thorough).
"""
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
from plan import PLAN  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
VH = os.path.join(HARNESS, "target", "debug", "vh")


# what the harness records for a number beyond the range (num.rs)
SENTINEL = "2000000001"


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never")
    e.setdefault("HOME", "/root")
    return e


def build():
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stdout[-3000:])


def tlc(module, cfg, work, trace=None, workers=8, timeout=600, extra=()):
    meta = os.path.join(work, "states_" + os.path.basename(cfg) + ("_" + os.path.basename(trace) if trace else ""))
    e = env()
    if trace:
        e["TRACE"] = trace
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g", "-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, module]
    log = meta + ".log"
    try:
        with open(log, "w") as fh:
            p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=fh, stderr=subprocess.STDOUT)
        end = time.time() + timeout
        while p.poll() is None:
            # TLC can take for ever to describe where an error happened
            if trace and end - time.time() > 20 and "Error: The behavior up to" in open(log).read():
                end = time.time() + 20
            if time.time() > end:
                break
            try:
                p.wait(0.5)
            except subprocess.TimeoutExpired:
                pass
        out = open(log, errors="replace").read()
        code = p.poll()
        if code is None:
            p.kill()
            p.wait()
            if "Error: The behavior up to" not in out:
                raise ToolError("TLC timed out on " + module)
            code = 1
        elif code < 0 or code > 128 and "Error:" not in out:
            raise ToolError("TLC ended with %d on %s" % (code, module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        if os.path.exists(log):
            os.remove(log)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.search(r"Finished computing initial states: (\d+)", out)
    gen -= int(m.group(1)) if m else 0       # steps taken, without the initial states
    return code, out, gen, dist


def printed(out):
    """values printed by the specification with PrintT on a string"""
    res = []
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                res.append(json.loads(line))
            except ValueError:
                pass
    return res


def cfg_of(name, tier):
    t = os.path.join(SPEC, name + "_t.cfg")
    q = os.path.join(SPEC, name + ".cfg")
    return t if tier == "thorough" and os.path.exists(t) else q


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def run_harness(cmd, seed, tier, out, script, scratch):
    args = [VH, cmd, "--seed", str(seed), "--tier", tier, "--out", out, "--scratch", scratch]
    if script:
        args += ["--script", script]
    try:
        r = subprocess.run(args, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=300 if tier == "quick" else 3000, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return args, "the code under test did not come to an end"
    if r.returncode < 0:
        return args, "the code under test ended the process with signal %d" % -r.returncode
    if r.returncode != 0:
        raise ToolError("harness %s: exit %d\n%s" % (cmd, r.returncode, r.stdout[-2000:]))
    return args, None


def main():
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    t0 = time.time()
    if pid == "setup":
        build()
        return 0
    plan = PLAN[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    work = os.path.join(EVID, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    scratch = os.path.join(work, "scratch")
    os.makedirs(scratch)
    replay = os.path.join(EVID, pid + ".replay.json")
    if os.path.exists(replay):
        os.remove(replay)

    violations, known, states, trans, models = [], [], 0, 0, {}
    scripts = {}
    with ThreadPoolExecutor(4) as pool:
        fb = pool.submit(build)
        fm = [(m, pool.submit(tlc, m.module, cfg_of(m.cfg, tier), work, None, m.workers,
                              400 if tier == "quick" else 3000)) for m in plan["models"]]
        fb.result()
        for m, f in fm:
            code, out, gen, dist = f.result()
            if code != 0:
                raise ToolError("model %s: TLC exit %d\n%s" % (m.module, code, out[-3000:]))
            if dist == 0:
                raise ToolError("model %s explored nothing" % m.module)
            states += dist
            trans += gen
            models[m.cfg] = {"distinct": dist, "steps": gen}
            if m.script:
                lines = sorted(set(printed(out)))
                if not lines:
                    raise ToolError("model %s printed no script" % m.module)
                p = os.path.join(work, m.cfg + ".script")
                with open(p, "w") as fh:
                    fh.write("\n".join(lines) + "\n")
                scripts[m.cfg] = p
                models[m.cfg]["scripts"] = len(lines)

    events, asides, kinds, samples = 0, 0, {}, []
    for n, r in enumerate(plan["runs"]):
        ev = os.path.join(work, "%s_%d.ndjson" % (r.cmd, n))
        args, dead = run_harness(r.cmd, seed, tier, ev, scripts.get(r.script), scratch)
        if dead:
            violations.append({"what": dead, "command": args})
            continue
        lines = open(ev).read().splitlines()
        if not lines:
            raise ToolError("harness %s recorded nothing" % r.cmd)
        for s in lines:
            k = re.search(r'"ev":"([^"]*)"', s)
            k = k.group(1) if k else r.cmd
            if k not in kinds:
                samples.append(s if len(s) < 1500 else s[:1500] + "...")
            kinds[k] = kinds.get(k, 0) + 1
        aside = 0
        while True:
            code, out, gen, dist = tlc(r.trace, os.path.join(SPEC, "TR.cfg"), work, ev, 8,
                                       400 if tier == "quick" else 3000)
            m = re.findall(r"/\\ l = (\d+)", out)
            line = int(m[-1]) if m else 0
            # events whose expected numbers leave the range of TLC are not decided; recorded
            # numbers beyond the range are marked and are a violation
            if not (code != 0 and "Overflow when computing" in out and 0 < line <= len(lines)
                    and ('"mode":"f"' in lines[line - 1] or SENTINEL not in lines[line - 1]) and aside < 3 + len(lines) // 100):
                break
            aside += 1
            del lines[line - 1]
            with open(ev, "w") as fh:
                fh.write("\n".join(lines) + "\n")
        for s in printed(out):
            if s.startswith("KNOWN "):
                known.append(s[6:])
        if code == 0:
            if dist < 2 * len(lines):
                raise ToolError("%s: %d states for %d events" % (r.trace, dist, len(lines)))
            events += len(lines)
            asides += aside
            continue
        if "Parsing or semantic analysis failed" in out or "OutOfMemory" in out or "StackOverflow" in out:
            raise ToolError("%s: TLC exit %d\n%s" % (r.trace, code, out[-3000:]))
        if not m:
            raise ToolError("%s: TLC exit %d\n%s" % (r.trace, code, out[-3000:]))
        what = re.findall(r'/\\ v = "([^"]*)"', out)
        violations.append({
            "what": what[-1] if what and what[-1] != "todo" else "event outside the specification",
            "command": args, "trace_module": r.trace, "line": line,
            "event": json.loads(lines[line - 1]) if 0 < line <= len(lines) else None,
            "tlc": out[-4000:],
        })

    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": events,
            "set_aside": asides, "samples": samples[:12], "models": models, "events_by_kind": kinds,
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(evid, fh, indent=1)
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if violations:
        with open(replay, "w") as fh:
            json.dump({"property": pid, "seed": seed, "tier": tier, "violations": violations}, fh, indent=1)
        for v in violations:
            print("%s: %s" % (pid, v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    shutil.rmtree(work, ignore_errors=True)
    print("%s held: %d model states, %d events of the code accepted, %.1f s"
          % (pid, states, events, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("error: %s" % e)
        sys.exit(2)
    except Exception as e:  # noqa: BLE001
        print("error: %r" % e)
        sys.exit(2)
