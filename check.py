#!/usr/bin/env python3
"""Runs the check of one property: see DESIGN.md.

  check.py P01 [--tier quick|thorough] [--seed N]
  check.py --replay FILE        validates a recorded episode again
  check.py --setup              checks that everything builds and parses

Steps: build the harness against /repo's working tree, check the design models
with TLC, generate scripts from the specification with TLC, run them (and the
other scenarios of the property) on the real code, and let TLC decide whether
each recorded execution is a behaviour of the specification.

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: an execution
of the real code is not a behaviour of the specification.  Exit 2: no answer.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
from checks import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402

T0 = time.time()


class NoAnswer(Exception):
    pass


def log(msg):
    print("[%6.1fs] %s" % (time.time() - T0, msg), flush=True)


def goenv():
    env = dict(os.environ)
    env.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env["PATH"]
    for k in ("PG_HOST", "VAULT_ADDRESS", "DYDB_ENDPOINT_URL", "ESDB_IP_ADDR"):
        env.pop(k, None)
    return env


def build(work, server=None):
    out = os.path.join(work, "vh")
    args = ["go", "build", "-o", out]
    repo = os.environ.get("VERIF_REPO")
    if repo:  # development: try the checks on a scratch copy of the repository
        mod = os.path.join(work, "go.mod")
        with open(mod, "w") as f:
            f.write(open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + repo))
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(work, "go.sum"))
        args.append("-modfile=" + mod)
    else:
        shutil.copy(os.path.join(HARNESS, "go.mod"), os.path.join(work, "go.mod"))
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(work, "go.sum"))
    over = os.path.join(work, "overlay.json")
    with open(over, "w") as f:
        json.dump({"Replace": {(repo or "/repo") + "/examples/chat/verif_compose.go": os.path.join(HARNESS, "overlay", "chat_compose.go")}}, f)
    for more in ["-tags=chat", "-overlay=" + over], []:  # without it only P22 has no answer
        p = subprocess.run(args + more + ["."], cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode == 0:
            break
    if p.returncode != 0:
        raise NoAnswer("harness does not build:\n" + p.stdout[-4000:])
    for name, pkg in (server or {}).items():
        p = subprocess.run(args[:3] + [out + name] + args[4:] + ["github.com/inklabs/rangedb/cmd/" + pkg], cwd=HARNESS, env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            raise NoAnswer("cmd/" + pkg + " does not build:\n" + p.stdout[-4000:])
    return out


def tlc(args, env=None, timeout=600, heap="2g", opts=(), meta=None):
    """Runs TLC in the spec directory; returns its output (None: out of time)."""
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix="tlc-", dir=meta)
    cmd = ["java", "-Xmx" + heap, "-XX:+UseSerialGC", "-Xss512m", "-Djava.io.tmpdir=" + meta] + list(opts) + \
          ["-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(meta, "states"), "-noGenerateSpecTE"] + args
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def counts(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out or "")
    if m:
        return int(m.group(2)), int(m.group(1))
    m = re.search(r"The number of states generated: (\d+)", out or "")
    return (int(m.group(1)), int(m.group(1))) if m else (0, 0)


def head_of_error(out):
    i = out.find("Error: ")
    return out[max(i, 0):][:3000] + "\n...\n" + out[-600:]


# ---------------------------------------------------------------- scripts

def gen_scripts(mode, num, depth, consts, seed, work, dest, tla="EventLogGen"):
    cfg = os.path.join(work, "gen-%s.cfg" % mode)
    base = {"NS": 4, "NT": 3, "Depth": depth, "Mode": '"%s"' % mode}
    base.update(consts)
    with open(cfg, "w") as f:
        f.write("SPECIFICATION GenSpec\nCONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in base.items()) +
                "INVARIANT Emit\nINVARIANT GenInv\nCHECK_DEADLOCK FALSE\n")
    out = tlc(["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-workers", "1", "-seed", str(seed),
               "-config", cfg, tla + ".tla"], timeout=200, opts=["-XX:TieredStopAtLevel=1"], meta=work)
    if out is None or "rror:" in out:
        raise NoAnswer("script generation failed:\n%s" % (out or "timeout")[-3000:])
    scripts = [json.loads('"' + s + '"') for s in re.findall(r'^"SCRIPT (.*)"$', out, re.M)]
    scripts = list(dict.fromkeys(scripts))
    if len(scripts) < num * 0.5:
        raise NoAnswer("script generation produced %d of %d scripts" % (len(scripts), num))
    with open(os.path.join(dest, "scripts-%s.ndjson" % mode), "w") as f:
        f.write("\n".join(scripts) + "\n")
    return len(scripts), counts(out)[1]


# ---------------------------------------------------------------- models

def run_model(m, tier, work):
    """A design model: TLC must find no error (or, for a mutation, the named one)."""
    t = time.time()
    cfg, name = m["cfg"] + ".cfg", m["cfg"]
    if m.get("set"):  # a variant: other values of some constants
        name += "".join(" %s=%s" % (k, v.strip('"')) for k, v in m["set"].items())
        text = open(os.path.join(SPEC, cfg)).read()
        for k, v in m["set"].items():
            text, n = re.subn(r"(?m)^(\s*%s = ).*$" % k, lambda x: x.group(1) + v, text)
            if n != 1:
                raise NoAnswer("model %s has no constant %s" % (m["cfg"], k))
        cfg = os.path.join(work, "model-%s.cfg" % re.sub(r"\W+", "-", name))
        with open(cfg, "w") as f:
            f.write(text)
    out = tlc(["-workers", str(m.get("workers", 4)), "-config", cfg, m["tla"] + ".tla"],
              timeout=m.get("timeout", 300), heap=m.get("heap", "6g"), meta=work)
    if out is None:
        raise NoAnswer("model %s: out of time" % name)
    expect = m.get("expect")
    if expect:
        if expect not in out:
            raise NoAnswer("model %s should fail with '%s' but did not:\n%s" % (name, expect, out[-2500:]))
    elif "No error has been found" not in out:
        raise NoAnswer("model %s fails:\n%s" % (name, head_of_error(out)))
    d, g = counts(out)
    return {"model": name, "states": d, "transitions": g, "expected_violation": expect or "", "secs": round(time.time() - t, 1)}


# ---------------------------------------------------------------- traces

def validate(spec, path, work, prop="ALL", timeout=900):
    """Returns (accepted, line of the first fact no behaviour explains, (states, transitions))."""
    opts = ["-XX:TieredStopAtLevel=1"]
    if prop == "SEARCH" or "conc" in os.path.basename(path):
        opts.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    out = tlc(["-workers", "1", "-config", spec + ".cfg", spec + ".tla"], env={"TRACE": path, "PROP": prop},
              timeout=timeout, heap="3g", opts=opts, meta=work)
    if out is None:
        raise NoAnswer("trace validation of %s ran out of time" % os.path.basename(path))
    if "TRACE-ACCEPTED" in out:
        return True, 0, counts(out)
    m = re.search(r'<<"MAXLINE", (\d+)>>', out)
    if not m or "Error: " in out:
        raise NoAnswer("trace validation of %s failed:\n%s" % (os.path.basename(path), head_of_error(out)))
    return False, int(m.group(1)), counts(out)


def split_episodes(path):
    eps, cur = [], []
    for ln in open(path):
        if ln.startswith('{"e":"reset"') or '"e":"reset"' in ln[:400] and json.loads(ln)["e"] == "reset":
            if cur:
                eps.append(cur)
            cur = []
        cur.append(ln)
    if cur:
        eps.append(cur)
    return eps


def validate_shard(args):
    """Validates one shard; rejected episodes are set aside and the rest is validated again."""
    spec, path, work, max_fail = args
    eps = split_episodes(path)
    bad, st, tr = [], 0, 0
    cur = path
    while eps:
        ok, line, (s, t) = validate(spec, cur, work)
        st += s
        tr += t
        if ok:
            break
        n = 0
        for i, ep in enumerate(eps):
            if n + len(ep) >= line:
                bad.append((spec, ep, line - n))
                # everything before the rejected episode is validated already
                eps = eps[i + 1:]
                break
            n += len(ep)
        else:
            raise NoAnswer("rejected line %d not found in %s" % (line, cur))
        if len(bad) >= max_fail:
            break
        cur = path + ".rest"
        with open(cur, "w") as f:
            for ep in eps:
                f.writelines(ep)
    return bad, st, tr


def pretty(ln):
    d = json.loads(ln)
    if d.get("e") == "reset":
        d.pop("recs", None)
    return json.dumps(d, ensure_ascii=False)


def explain(prop, spec, ep, at, work, note=""):
    """Writes the replay file of a rejected episode."""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    h = hashlib.sha1("".join(ep).encode()).hexdigest()[:10]
    base = os.path.join(HERE, "replays", "%s-%s-%s" % (prop, spec, h))
    with open(base + ".ndjson", "w") as f:
        f.writelines(ep)
    head = json.loads(ep[0])
    lines = ["property %s: an execution of the real code is not a behaviour of spec/%s.tla" % (prop, spec),
             "episode %s" % head.get("name"),
             "validate again with: python3 check.py --replay %s.ndjson" % base, note,
             "line %d of the episode is the first fact that no behaviour explains:" % at, ""]
    for i, ln in enumerate(ep[1:], 2):
        mark = ">>" if i == at else "  "
        if i <= at + 3 or i > len(ep) - 2:
            lines.append("%s %4d %s" % (mark, i, pretty(ln)))
    if "recs" in head:
        lines += ["", "records seen:"] + [json.dumps(r, ensure_ascii=False) for r in head["recs"]]
    with open(base + ".txt", "w") as f:
        f.write("\n".join(lines) + "\n")
    return base + ".ndjson", head.get("name"), pretty(ep[at - 1]) if at <= len(ep) else "(end)"


def known_findings(prop):
    """Lines 'known: property=<id> episode=<regex> line=<regex> # what' of known-findings.txt."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    for ln in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) episode=(\S+) line=(\S+) # (.*)", ln.strip())
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


def crash_of_code(err):
    """If the harness died inside the code under test: the panic and where it happened."""
    m = re.search(r"^(panic: .*|fatal error: .*)$", err, re.M)
    if not m:
        return None
    tail = err[m.start():]
    g = re.search(r"^goroutine \d+.*?:\n(.*?)(?:\n\n|\Z)", tail, re.M | re.S)
    if not g:
        return None
    for fn, where in re.findall(r"^(\S.*)\n\t(\S+)", g.group(1), re.M):
        if "/repo/" in where or os.environ.get("VERIF_REPO", "/repo/") in where:
            return "%s in %s at %s" % (m.group(1), fn, where)
        if "/harness/" in where or fn.startswith("main."):
            return None
    return None


def main():
    args = sys.argv[1:]
    if "--replay" in args:
        path = os.path.abspath(args[args.index("--replay") + 1])
        spec = os.path.basename(path).split("-")[1]
        work = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
        try:
            ok, line, _ = validate(spec, path, work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print("accepted" if ok else "rejected at line %d" % line)
        return 0 if ok else 1
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    work = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
    try:
        if "--setup" in args:
            build(work, CHECKS["P26"]["server"])
            print("setup ok")
            return 0
        return check(args[0], tier, seed, work, "--keep" in args)
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        return 2
    finally:
        if "--keep" in args:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, work, keep):
    c = CHECKS[prop]
    quick = tier != "thorough"
    out = os.path.join(work, "out")
    os.mkdir(out)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": c.get("level", "model_checking"), "violations": 0}
    with cf.ThreadPoolExecutor(8) as pool:
        fb = pool.submit(build, work, c.get("server"))
        gens = {m: pool.submit(gen_scripts, m, g["num"][0 if quick else 1], g.get("depth", (12, 16))[0 if quick else 1],
                               g.get("consts", {}), seed * 1000 + i, work, out, g.get("tla", "EventLogGen"))
                for i, (m, g) in enumerate(sorted(c.get("gen", {}).items()))}
        models = [m for m in c.get("models", []) if quick is False or not m.get("thorough")]
        fm = [pool.submit(run_model, m, tier, work) for m in models]
        vh = fb.result()
        ng = {m: f.result() for m, f in gens.items()}
        log("harness built, scripts generated: %s" % {m: n for m, (n, _) in ng.items()})
        mres = [f.result() for f in fm]
        if mres:
            log("design models checked: %s" % ", ".join("%s %d states%s" % (m["model"], m["states"], " (violated as expected)" if m["expected_violation"] else "") for m in mres))

        limit = c.get("limit", (300, 1500))[0 if quick else 1]
        errf = os.path.join(work, "stderr")
        env = goenv()
        env["GOTRACEBACK"] = "all"
        env["VH_MOD"] = work
        env["VH_SERVER"] = vh + "-server"
        with open(errf, "w") as ef:
            p = subprocess.Popen([vh, "-prop", prop, "-tier", tier, "-seed", str(seed), "-out", out], cwd=work, env=env,
                                 stdout=subprocess.PIPE, stderr=ef, text=True, start_new_session=True)
            try:
                so, _ = p.communicate(timeout=limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                raise NoAnswer("harness ran out of time; running: %s" % open(out + "/running").read())
        err = open(errf, errors="replace").read()
        if p.returncode != 0:
            crash = crash_of_code(err)
            running = open(out + "/running").read() if os.path.exists(out + "/running") else "?"
            if not crash:
                raise NoAnswer("harness failed (%d):\n%s" % (p.returncode, err[:6000]))
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            rp = os.path.join(HERE, "replays", "%s-crash.txt" % prop)
            with open(rp, "w") as f:
                f.write("%s\nwhile running one of:\n%s\n\n%s" % (crash, running, err[:20000]))
            print("the code under test crashed: %s" % crash)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            ev.update(coverage={"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [crash]},
                      violations=1, wall_s=round(time.time() - T0, 1))
            write_evidence(prop, ev)
            return 1
        summary = json.load(open(out + "/summary.json"))
        log("executed on the real code: %d episodes, %d facts in %.1fs, longest %s %.1fs" % (summary["episodes"], summary["lines"], summary["secs"], summary["longestName"], summary["longest"]))
        if os.path.exists(out + "/hung.txt"):
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            shutil.copy(out + "/hung.txt", os.path.join(HERE, "replays", "%s-hung.txt" % prop))

        known = known_findings(prop)
        shards = sorted(f for f in os.listdir(out) if re.match(r".*-\d+\.ndjson$", f) and not f.startswith("scripts-"))
        jobs = [(re.match(r"(.*?)-", f).group(1), os.path.join(out, f), work, 50 if known else 2) for f in shards]
        res = list(pool.map(validate_shard, jobs))
    states = sum(r[1] for r in res)
    trans = sum(r[2] for r in res)
    bad = [b for r in res for b in r[0]]
    log("traces validated by TLC: %d states, %d rejected episodes" % (states, len(bad)))

    violations, seen_known = [], set()
    for spec, ep, at in bad:
        name = json.loads(ep[0]).get("name", "")
        ln = ep[at - 1] if at <= len(ep) else ""
        hit = next((k for k in known if k[0].search(name) and k[1].search(ln)), None)
        if hit:
            seen_known.add(hit[2])
        else:
            violations.append((spec, ep, at))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))

    missing = [] if violations else [k for k, n in c.get("need", {}).items() if summary["sigs"].get(k, 0) < n]
    sample = []
    for f in shards[:1]:
        eps = split_episodes(os.path.join(out, f))
        ep = eps[len(eps) // 2]
        sample.append({"episode": json.loads(ep[0]).get("name"), "facts": [pretty(x)[:300] for x in ep[1:13]]})
    ev["coverage"] = {
        "states": states + sum(m["states"] for m in mres),
        "transitions": trans + sum(m["transitions"] for m in mres),
        "traces_validated_against_impl": summary["episodes"],
        "facts_validated": summary["lines"],
        "observed_outcomes": summary["sigs"],
        "scripts_generated_by_tlc": {m: n for m, (n, _) in ng.items()},
        "design_models": mres,
        "samples": sample,
    }
    ev["assumptions"] = COMMON_ASSUMPTIONS + c.get("assumptions", [])
    ev["violations"] = len(violations)
    ev["wall_s"] = round(time.time() - T0, 1)
    write_evidence(prop, ev)
    if missing:
        raise NoAnswer("not exercised enough: %s (observed %s)" % (missing, summary["sigs"]))
    if violations:
        for i, (spec, ep, at) in enumerate(violations[:6]):
            path, name, fact = explain(prop, spec, ep, at, work)
            print("rejected: episode %s, fact %d: %s" % (name, at, fact[:600]))
            if i == 0:
                first = path
        print("VIOLATION property=%s replay=%s" % (prop, first))
        return 1
    print("OK property=%s: %d executions of the real code are behaviours of the specification" % (prop, summary["episodes"]))
    return 0


def write_evidence(prop, ev):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    try:
        rc = main()
    except (SystemExit, KeyboardInterrupt):
        raise
    except BaseException as e:  # anything unexpected is no answer, never a verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
