#!/usr/bin/env python3
"""Run one property's check.

usage: check.py PROP [--cases N] [--only K]  (VERIF_SEED, VERIF_TIER from the environment)

exit 0: held on everything observed;  exit 1 + VIOLATION line: broken;
exit 3: the check itself could not be carried out.
"""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()
NW = 8


def load_conf():
    return json.load(open(os.path.join(HERE, "harness/conf.json")))


def asan_env(env):
    libs = []
    for l in ("libasan.so", "libubsan.so"):
        libs.append(subprocess.run(["gcc", "-print-file-name=" + l], capture_output=True, text=True).stdout.strip())
    env["LD_PRELOAD"] = " ".join(libs)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1:"
                           "detect_stack_use_after_return=0:quarantine_size_mb=64:malloc_context_size=12")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"


class Job:
    def __init__(self, ctx, worker, frm=None, only=None):
        self.ctx, self.worker, self.only = ctx, worker, only
        self.tag = f"w{worker}" + (f"_o{only}" if only else "") + (f"_f{frm}" if frm else "")
        d = ctx["tmp"]
        self.out = os.path.join(d, self.tag + ".json")
        self.prog = os.path.join(d, self.tag + ".prog")
        self.log = os.path.join(d, self.tag + ".log")
        cfg = dict(harness=os.path.join(HERE, "harness"), build=ctx["build"], variant=ctx["variant"],
                   prop=ctx["prop"], seed=ctx["seed"], ncases=ctx["ncases"], worker=worker, nworkers=NW,
                   tier=ctx["tier"], out=self.out, progress=self.prog, scratch=d)
        if frm is not None:
            cfg["from"] = frm
        if only is not None:
            cfg["only"] = only
        self.cfg = os.path.join(d, self.tag + ".cfg")
        json.dump(cfg, open(self.cfg, "w"))
        env = dict(os.environ, LC_CTYPE="C.UTF-8", LC_COLLATE="C", LANG="C.UTF-8", TZ="UTC", R_LIBS=ctx["build"] + "/lib",
                   R_LIBS_USER="/nonexistent", R_PROFILE_USER="/nonexistent", R_ENVIRON_USER="/nonexistent",
                   OMP_NUM_THREADS="1", TMPDIR=d, R_DEFAULT_PACKAGES="methods,stats,utils,datasets,grDevices,graphics")
        for k in ("MAKEFLAGS", "LD_PRELOAD", "LC_ALL"):
            env.pop(k, None)
        if ctx["variant"] == "san":
            asan_env(env)
        self.started = time.time()
        self.p = subprocess.Popen(["Rscript", "--no-init-file", "--no-environ", os.path.join(HERE, "harness/worker.R"), self.cfg],
                                  stdout=open(self.log, "w"), stderr=subprocess.STDOUT, env=env,
                                  cwd=d, start_new_session=True)
        self.killed = None

    def case(self):
        try:
            s = open(self.prog).read().split()
            return int(s[0]) if s else None
        except (OSError, ValueError):
            return None

    def law(self):
        try:
            s = open(self.prog).read().split()
            return s[1] if len(s) > 1 else "?"
        except OSError:
            return "?"

    def stale(self):
        try:
            t = os.path.getmtime(self.prog)
        except OSError:
            t = self.started
        return time.time() - max(t, self.started)

    def kill(self, why):
        self.killed = why
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def text(self):
        return open(self.log, errors="replace").read()

    def result(self):
        if os.path.exists(self.out):
            return json.load(open(self.out))
        return None


def wait_all(jobs, case_limit, total_limit):
    """Watchdog: a case stuck for case_limit seconds, or everything past total_limit, is killed."""
    while True:
        live = [j for j in jobs if j.p.poll() is None]
        if not live:
            return
        for j in live:
            if j.stale() > case_limit:
                j.kill("stale")
            elif time.time() - T0 > total_limit:
                j.kill("total")
        time.sleep(0.05)


def crash_summary(text):
    """A stable key for a sanitizer report or a crash: kind + innermost vctrs frames."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    kind = None
    if m:
        kind = "asan:" + m.group(1)
        tail = text[m.start():]
    else:
        m = re.search(r"^(.*?)([\w./-]+\.[ch]):\d+:\d+: runtime error: (.*)$", text, re.M)
        if m:
            kind = "ubsan:" + re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(3))
            tail = text[m.start():]
    if kind is None:
        m = re.search(r"\*\*\* caught (\w+) \*\*\*", text)
        kind = "crash:" + (m.group(1) if m else "exit")
        tail = text
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) \S*?(?:pkg/src|src)/(\S+?):\d+", tail)
    skip = ("mon_", "__wrap")
    fr = [f"{fn}" for fn, _ in frames if not fn.startswith(skip)][:3]
    return kind + (" in " + "<".join(fr) if fr else "")


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


SELFTEST = dict(clean=None, over="AddressSanitizer", under="AddressSanitizer", freed="AddressSanitizer", ub="runtime error")


class SelfTest:
    """Known faults committed under the monitor: each must be reported, and the harmless one must not be."""
    def __init__(self, ctx):
        env = dict(os.environ, R_LIBS_USER="/nonexistent", LC_ALL="C.UTF-8", TMPDIR=ctx["tmp"])
        asan_env(env)
        self.ps = {w: subprocess.Popen(["Rscript", "--vanilla", os.path.join(HERE, "harness/selftest.R"), ctx["build"], w],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env,
                                       cwd=ctx["tmp"], start_new_session=True) for w in SELFTEST}

    def bad(self):
        out = []
        for w, p in self.ps.items():
            try:
                t = p.communicate(timeout=120)[0]
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                t = "no answer"
            want = SELFTEST[w]
            ok = ("SURVIVED" in t and p.returncode == 0) if want is None else (want in t and "SURVIVED" not in t and p.returncode != 0)
            if not ok:
                out.append((w, t[-500:]))
        return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--only", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--tier")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--variant", help="use another build (cov: for measuring what the workload reaches)")
    a = ap.parse_args()
    conf = load_conf()
    pc = conf["props"][a.prop]
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:6], 16)
    seed = seed % 100000
    variant = a.variant or pc.get("variant", "plain")
    ncases = a.cases or pc[tier]
    b = subprocess.run([sys.executable, os.path.join(HERE, "bin/build.py"), variant], stdout=subprocess.PIPE, text=True)
    if b.returncode:
        print(f"ERROR: build of the working tree failed (property {a.prop})")
        return 3
    build = b.stdout.strip().splitlines()[-1]
    t_build = time.time() - T0
    tmp = tempfile.mkdtemp(prefix=f"vp_{a.prop}_")
    ctx = dict(prop=a.prop, build=build, variant=variant, seed=seed, ncases=ncases, tier=tier, tmp=tmp)
    total_limit = 840 if tier == "quick" else 6 * 3600
    case_limit = pc.get("case_limit", 45)
    try:
        return run(a, ctx, pc, conf, total_limit, case_limit, t_build)
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print("kept", tmp)


def run(a, ctx, pc, conf, total_limit, case_limit, t_build):
    if a.only:
        j = Job(ctx, 1, only=a.only)
        wait_all([j], 10 * case_limit, total_limit)
        r = j.result()
        if r is None:
            print(j.text()[-6000:])
            print("CRASH", crash_summary(j.text()), "killed:", j.killed)
            return 1
        print(json.dumps({k: r[k] for k in ("events", "violations", "tags")}, indent=1, ensure_ascii=False)[:6000])
        return 1 if r["violations"] else 0

    st = SelfTest(ctx) if ctx["variant"] == "san" else None
    jobs = [Job(ctx, w + 1) for w in range(NW)]
    todo = list(jobs)
    results, crashes, errors, restarts = [], [], [], 0
    while todo:
        wait_all(todo, case_limit, total_limit)
        nxt = []
        for j in todo:
            r = j.result()
            if r is not None and j.p.returncode == 0:
                results.append(r)
                continue
            k = j.case()
            if k is None:  # died before its first case: the harness or the package does not load
                errors.append((j.tag, j.killed, j.text()[-3000:]))
                continue
            if j.killed == "total":
                errors.append((j.tag, "total time limit", f"at case {k}"))
                continue
            # re-run that case alone in a fresh process
            one = Job(ctx, j.worker, only=k)
            wait_all([one], 2 * case_limit, total_limit + 50)
            r1 = one.result()
            if r1 is not None and one.p.returncode == 0:
                results.append(r1)
                if j.killed != "stale":  # crash that needs the history of the worker
                    crashes.append(dict(k=k, law=j.law(), key=crash_summary(j.text()), text=j.text()[-6000:],
                                        history=True, worker=j.worker))
            elif one.killed == "total":
                errors.append((one.tag, "total time limit", f"at case {k}"))
            elif one.p.returncode == -9 and one.killed is None:
                crashes.append(dict(k=k, law=j.law(), key="killed (out of memory?)", text=f"case {k} was killed twice", history=False, worker=j.worker))
            elif one.killed:
                crashes.append(dict(k=k, law=j.law(), key="hang", text=f"case {k} did not finish (twice)", history=False, worker=j.worker))
            else:
                crashes.append(dict(k=k, law=j.law(), key=crash_summary(one.text()), text=one.text()[-6000:], history=False, worker=j.worker))
            if restarts < 6 * NW and len(crashes) < 24:
                restarts += 1
                nxt.append(Job(ctx, j.worker, frm=k))
        todo = nxt

    if st:
        errors += [("the monitor does not see a known fault (self-test)", *b) for b in st.bad()]
    prop = a.prop
    viol = []
    for r in results:
        for v in r["violations"]:
            first = (v["message"].splitlines() or [""])[0]
            v["key"] = f"{v['law']} | {v['kind']} | {first}"
            viol.append(v)
    for c in crashes:
        viol.append(dict(law=c["law"], k=c["k"], seed=ctx["seed"], kind="crash", key=f"{c['law']} | crash | {c['key']}",
                         message=c["text"], inputs=[], worker=c["worker"], history=c["history"]))
    kf = [f for f in known_findings() if f.get("property") == prop and f.get("status") == "known"]
    known, fresh = {}, []
    for v in viol:
        text = v["key"] + "\n" + v["message"] + "\n" + "\n".join(v.get("inputs") or [])
        hit = None
        for f in kf:
            if re.search(f["match"], v["key"]) and (not f.get("input_match") or re.search(f["input_match"], text)):
                hit = f
                break
        if hit:
            known.setdefault(hit["id"], [hit, 0])[1] += 1
        else:
            fresh.append(v)

    # evidence
    done = sum(r["done"] for r in results)
    hashes = set()
    per_law, tags, samples, mon = {}, {}, [], {}
    for r in results:
        h = r["hashes"]
        hashes.update([h] if isinstance(h, str) else h)
        for l, c in r["per_law"].items():
            t = per_law.setdefault(l, {"cases": 0, "comparisons": 0})
            for q in t:
                t[q] += c[q]
        for t, c in (r["tags"] or {}).items():
            tags[t] = tags.get(t, 0) + c
        samples += r["samples"] or []
        for m, c in (r.get("mon") or {}).items():
            mon[m] = mon.get(m, 0) + c
    cov = dict(evaluations=done, distinct_nontrivial=len(hashes),
               rule=pc.get("rule", "A case draws inputs from the seed, runs the package and compares what is observed with the "
                           "oracle; it is non-trivial when at least one comparison was made and its inputs hold two or more "
                           "elements; distinct by law and hash of the inputs."),
               samples=samples[:6], comparisons=sum(r["events"] for r in results), per_law=per_law,
               tags=dict(sorted(tags.items(), key=lambda x: -x[1])[:200]), restarts=restarts,
               build_s=round(t_build, 1))
    if mon:
        cov["monitor"] = mon
    if st:
        cov["selftest"] = "seen: " + ", ".join(w for w in SELFTEST if SELFTEST[w])
    ev = dict(property=prop, tier=ctx["tier"], seed=ctx["seed"], level=pc.get("level", "exploration"), coverage=cov,
              assumptions=pc.get("assumptions", ["The oracle (harness/model.R and the law itself) states the documented behaviour.",
                                                 "Only the executions generated here were observed."]),
              wall_s=round(time.time() - T0, 1), violations=len(fresh))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)

    for f, n in known.values():
        print(f"KNOWN-FINDING: property={prop} {f['what']} ({n} cases)")
    if fresh:
        rp = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rp, exist_ok=True)
        seen = {}
        for v in fresh:
            seen.setdefault(v["key"], []).append(v)
        path = os.path.join(rp, f"{prop}.json")
        json.dump([dict(property=prop, seed=ctx["seed"], tier=ctx["tier"], cases=ctx["ncases"], k=v[0]["k"], key=key, count=len(v),
                        message=v[0]["message"], call=v[0].get("call", ""), inputs=v[0].get("inputs"),
                        replay=f"VERIF_SEED={ctx['seed']} python3 bin/check.py {prop} --only {v[0]['k']}")
                   for key, v in seen.items()], open(path, "w"), indent=1, ensure_ascii=False)
        for key, v in list(seen.items())[:12]:
            print(f"-- {key}  [{len(v)} cases, first k={v[0]['k']}]")
            print("\n".join(v[0]["message"].splitlines()[-60 if v[0]["kind"] == "crash" else 1:][:40])[:3000])
            for i in (v[0].get("inputs") or [])[:8]:
                print("   input:", i[:400])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for e in errors:
        print("ERROR", *e)
    if errors:
        return 3
    if done < ctx["ncases"] or not hashes:
        print(f"ERROR: only {done} of {ctx['ncases']} cases ran, {len(hashes)} non-trivial")
        return 3
    if mon and pc.get("mon_min"):
        for m, lo in pc["mon_min"].items():
            if mon.get(m, 0) < lo:
                print(f"ERROR: monitor observed too little: {m}={mon.get(m, 0)} < {lo}")
                return 3
    print(f"OK property={prop} tier={ctx['tier']} seed={ctx['seed']} cases={done} distinct={len(hashes)} "
          f"comparisons={cov['comparisons']} build={t_build:.1f}s wall={time.time() - T0:.1f}s")
    return 0


sys.exit(main())
