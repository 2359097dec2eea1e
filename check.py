#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]

Builds what the property needs from /repo's working tree, drives it in 8 shards and reads the
monitors' event files.  Exit 0: held on everything explored; 1: VIOLATION; other: no answer."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build, table

NSH = 8
EVID = os.environ.get("HRM_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAY = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known():
    """KNOWN-FINDING lines: property=<id> run=<entry> key=<key> case=<case> <what fails>"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) run=(\S+) key=(\S+) case=(\S+) (.*)", l)
            if m:
                out.append(dict(property=m[1], run=m[2], key=m[3], case=m[4], what=m[5].strip()))
    return out


def env_for(variant, leaks):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0" % leaks
    e["LSAN_OPTIONS"] = "exitcode=67:suppressions=%s" % os.path.join(VERIF, "lib", "lsan.supp")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=68:second_deadlock_stack=1"
    e["OMP_NUM_THREADS"] = "1"
    return e


class Run:
    def __init__(self, exe, entry, variant, opts):
        self.exe, self.entry, self.variant, self.opts = exe, entry, variant, opts


def start_run(pid, run, path, seed, tier, scratch, only=None):
    """returns (lines, stderr-by-case)"""
    procs = []
    nsh = 1 if only is not None else int(run.opts.get("shards", NSH))
    for i in range(nsh):
        d = os.path.join(scratch, "%s-%s-%s-%d%s" % (run.exe, run.variant, run.entry, i, "" if only is None else "-r%d" % only))
        os.makedirs(os.path.join(d, "cfg"), exist_ok=True)
        os.makedirs(os.path.join(d, "res"), exist_ok=True)
        cmd = [path, run.entry, "--seed", str(seed), "--tier", tier, "--shard", str(i), "--nshards", str(nsh), "--out", "out"]
        if only is not None:
            cmd += ["--only", str(only)]
        if "cases" in run.opts:
            n = run.opts["cases"]
            cmd += ["--cases", str(n if tier == "quick" else n * run.opts.get("deep", 12))]
        err = open(os.path.join(d, "err"), "wb")
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.DEVNULL, stderr=err, env=env_for(run.variant, run.opts.get("leaks", 0)))
        procs.append((p, d, err))
    lines, errs, complete = [], {}, True
    for p, d, err in procs:
        p.wait()
        err.close()
        o = os.path.join(d, "out")
        ls = open(o, errors="replace").read().splitlines() if os.path.exists(o) else []
        if p.returncode != 0 or "D" not in ls[-1:]:
            complete = False
        lines += ls
        txt = open(os.path.join(d, "err"), errors="replace").read()
        pos = 0
        for m in re.finditer(r"\n#CASE (-?\d+) (\S+)\n", txt):
            errs.setdefault(int(m[1]), txt[pos:m.start()][-6000:])
            pos = m.end()
    return lines, errs, complete


def crash_key(kind, text):
    """what a sanitizer or the runtime said, without addresses or line numbers"""
    if "LeakSanitizer has encountered a fatal error" in text:
        return None
    m = re.search(r"SUMMARY: (\w+): ([\w\-]+)(?: [^\n]*? in ([^\n]+))?", text)
    m2 = re.search(r"runtime error: ([^\n]+)", text)
    fr = re.search(r"#\d+ 0x\w+ in (hrm::[\w:~<>]+|\w+(?:::\w+)*) [^\n]*/repo/", text)
    where = fr[1] if fr else ""
    if m2:
        return "UBSan:" + re.sub(r"[^A-Za-z]+", "-", m2[1])[:50] + "@" + where
    if m:
        return "%s:%s@%s" % (m[1], m[2], where or (m[3] or "")[:60].replace(" ", ""))
    m = re.search(r"Assertion [`']([^\n]{1,80})", text)
    if m:
        return "assert:" + re.sub(r"\s+", "", m[1])[:60]
    m = re.search(r"terminate called[^\n]*'([^\n']+)'", text)
    if m:
        return "terminate:" + m[1]
    return kind


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    a = ap.parse_args()
    pid, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(re.sub(r"\D", "", str(a.seed)) or "1")
    t0 = time.time()
    runs = [Run(*(r if len(r) == 4 else r + ({},))) for r in table.CHECKS[pid]]
    # build
    paths = {}
    try:
        for v in sorted({r.variant for r in runs if r.variant != "py"}):
            names = sorted({r.exe for r in runs if r.variant == v})
            for n, p in zip(names, build.Builder(v).build_many([table.EXE[n] for n in names])):
                paths[n, v] = p
    except build.BuildError as e:
        sys.stderr.write(str(e) + "\n")
        print("NO-ANSWER property=%s build failed" % pid)
        return 3
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="hrm-%s-" % pid)
    try:
        return judge(pid, tier, seed, runs, paths, scratch, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def judge(pid, tier, seed, runs, paths, scratch, t0, tb):
    count, maxv, sigs, samples, found, inconclusive = {}, {}, set(), [], [], []
    per = {}
    for r in runs:
        if r.variant == "py":
            path = os.path.join(VERIF, "lib", r.exe + ".py")
        else:
            path = paths[r.exe, r.variant]
        lines, errs, complete = start_run(pid, r, path, seed, tier, scratch)
        if not complete:
            inconclusive.append("%s %s did not run to its end" % (r.exe, r.entry))
        tag = r.entry if r.entry != pid else r.exe
        for l in lines:
            if l.startswith("C "):
                try:
                    d = json.loads(l[2:])
                except ValueError:
                    inconclusive.append("unreadable counters")
                    continue
                for k, v in d["count"].items():
                    k = tag + "." + k
                    count[k] = count.get(k, 0) + v
                for k, v in d["max"].items():
                    k = tag + "." + k
                    maxv[k] = max(maxv.get(k, v), v)
                sigs.update((tag, s) for s in d["sig"])
                if len(samples) < 8:
                    samples += d["samples"][:1]
            elif l.startswith("V ") and not r.opts.get("crash_only"):
                _, c, key, det = (l.split(" ", 3) + [""])[:4]
                found.append(dict(run=r, case=int(c), key=key, detail=det))
            elif l.startswith("X "):
                _, c, kind = l.split(" ", 2)
                if r.opts.get("judge_only"):
                    inconclusive.append("%s case %s: %s" % (r.entry, c, kind))
                    continue
                c = int(c)
                text = errs.get(c, "")
                if kind.endswith("hang"):
                    # once more, alone, before it counts
                    l2, e2, _ = start_run(pid, r, path, seed, tier, scratch, only=c)
                    if not any(x.startswith("X ") for x in l2):
                        inconclusive.append("%s case %d timed out once, not again" % (r.entry, c))
                        continue
                    text = e2.get(c, "")
                    if not r.opts.get("hang_violates", True):
                        inconclusive.append("%s case %d timed out twice" % (r.entry, c))
                        continue
                key = crash_key(kind, text)
                if key is None:
                    inconclusive.append("leak checker could not run")
                    continue
                found.append(dict(run=r, case=c, key=key, detail=text[-3000:]))
        per[tag + "/" + r.variant] = count.get(tag + ".cases", 0)
    kn = known()
    fresh, listed = [], {}
    for f in found:
        hit = None
        for k in kn:
            if k["property"] == pid and k["run"] == f["run"].entry and k["key"] == f["key"] and k["case"] in ("*", str(f["case"])):
                hit = k
        if hit:
            listed.setdefault((hit["run"], hit["key"], hit["case"]), hit["what"])
        else:
            fresh.append(f)
    evals = sum(v for k, v in count.items() if k.endswith(".cases"))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(sigs), "rule": table.RULE[pid],
            "samples": samples or ["none"],
            "events": {k: v for k, v in sorted(count.items()) if not k.endswith(".cases")},
            "extremes": maxv, "cases_per_run": per, "build_seconds": round(tb, 1),
        },
        "assumptions": table.ASSUME.get(pid, []),
        "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
    }
    if inconclusive:
        ev["coverage"]["inconclusive"] = sorted(set(inconclusive))[:20]
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for (run, key, case), what in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if fresh:
        os.makedirs(REPLAY, exist_ok=True)
        f = fresh[0]
        rp = os.path.join(REPLAY, "%s-%s-%d.json" % (pid, f["run"].entry, f["case"]))
        with open(rp, "w") as h:
            json.dump(dict(property=pid, entry=f["run"].entry, harness=f["run"].exe, variant=f["run"].variant, seed=seed,
                           tier=tier, case=f["case"], key=f["key"], detail=f["detail"],
                           replay="%s %s --seed %d --tier %s --only %d" % (paths.get((f["run"].exe, f["run"].variant), f["run"].exe),
                                                                            f["run"].entry, seed, tier, f["case"]),
                           others=[dict(entry=x["run"].entry, case=x["case"], key=x["key"], detail=x["detail"][:300]) for x in fresh[1:20]]),
                      h, indent=1)
        print("%d violation(s), first: case %d of %s: %s: %s" % (len(fresh), f["case"], f["run"].entry, f["key"], f["detail"][:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    nin = len([x for x in inconclusive if "did not run" in x])
    if nin or evals == 0 or len(sigs) < table.MIN_NONTRIVIAL.get(pid, 2):
        print("NO-ANSWER property=%s evaluations=%d nontrivial=%d %s" % (pid, evals, len(sigs), "; ".join(inconclusive[:5])))
        return 4
    print("OK property=%s evaluations=%d nontrivial=%d wall=%.1fs (build %.1fs)%s" % (
        pid, evals, len(sigs), time.time() - t0, tb, " inconclusive=%d" % len(inconclusive) if inconclusive else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
