"""Checks that execute allocator outputs on the RegMachine specification."""
import json, os, struct, time
import core
from core import log, ToolError

PROFILES = ["mix", "small", "constraint", "params", "debug", "slots", "straight", "big"]


def rav(bindir):
    return os.path.join(bindir, "rav")


def shard(res, bindir, alg, profiles, start, count, emit, max_bad, secs, name):
    """Run the allocator on generated functions; returns (summary, record file)."""
    out = res.path(name + ".nd")
    total, done = None, 0
    lines = []
    while True:
        cmd = [rav(bindir), "alloc", "--alg", alg, "--profiles", ",".join(profiles), "--from", str(start),
               "--count", str(count), "--emit", str(emit), "--max-bad", str(max_bad), "--secs", str(secs),
               "--out", out]
        rc, txt = core.run(cmd, timeout=secs + 120, gb=6)
        if os.path.exists(out):
            lines += [l for l in open(out).read().splitlines() if l]
            os.remove(out)
        s = [l for l in txt.splitlines() if l.startswith("SUMMARY ")]
        if rc == 0 and s:
            total = json.loads(s[-1][8:])
            break
        if rc == -1:
            # The harness reports an allocator that does not come back; this is
            # the harness itself being slow, and says nothing about the code.
            log("shard %s: not finished in time" % name)
            total = {"ran": 0, "features": 0, "insts": 0, "edits": 0, "outcomes": {}, "screen": {}}
            break
        # The process died or hung: attribute it to the case it was working on.
        cur = struct.unpack("<Q", open(out + ".cur", "rb").read(8))[0]
        prof = profiles[cur % len(profiles)]
        if not any(l.startswith("HANG") for l in txt.splitlines()):
            kind = "crash"
            rc2, t2 = core.run([rav(bindir), "dead", alg, prof, str(cur), kind, out], timeout=60)
            if rc2 != 0:
                raise ToolError("harness died: rc=%s %s" % (rc, txt[-2000:]))
            lines += open(out).read().splitlines()
        done += 1
        log("shard %s: process ended early at %s:%s:%d" % (name, alg, prof, cur))
        if done >= 2:
            total = {"ran": cur - start, "features": 0, "insts": 0, "edits": 0, "outcomes": {}, "screen": {}}
            break
        start = cur + 1
    with open(out, "w") as f:
        f.write("\n".join(lines) + ("\n" if lines else ""))
    return total, out


def verdicts(out):
    v = []
    for l in out.splitlines():
        if l.startswith('"VERR|') and l.rstrip().endswith('"'):
            p = l.strip().strip('"').split("|", 3)
            v.append((p[1], p[2], p[3]))
    return v


def judge(res, path, name, timeout=120, deadline=None):
    """Execute the records of a file on the specification.  Returns
    (list of (case, code, detail), states, distinct)."""
    recs = [l for l in open(path).read().splitlines() if l]
    if not recs:
        return [], 0, 0
    deadline = deadline or time.time() + 2.5 * timeout
    left = min(timeout, deadline - time.time())
    if left < 5:
        res.unfinished += len(recs)
        return [], 0, 0
    r = core.tlc("RegMachine", "RegMachine.cfg", res.path("md-" + name), {"RA_CASES": path}, timeout=left)
    v = verdicts(r["out"])
    if r["ok"]:
        return v, r["states"], r["distinct"]
    if r["timeout"] and v:
        # Some execution has already gone wrong; the rest of the state space
        # (huge, because broken outputs mix everything up) does not matter.
        log("%s: stopped after %.0f s with %d verdicts" % (name, left, len(v)))
        return v, r["states"], r["distinct"]
    # TLC gave up on some record: find out which.
    if len(recs) == 1:
        cid = json.loads(recs[0])["id"]
        if r["timeout"]:
            log("TLC did not finish " + cid)
            res.unfinished += 1
            return [], 0, 0
        log("TLC cannot execute record %s: %s" % (cid, r["out"][-1500:]))
        return [(cid, "malformed", "the record cannot be executed")], 0, 0
    h = len(recs) // 2
    st = ds = 0
    v = []
    for k, part in enumerate((recs[:h], recs[h:])):
        p = "%s.%d" % (path, k)
        with open(p, "w") as f:
            f.write("\n".join(part) + "\n")
        a, b, c = judge(res, p, "%s.%d" % (name, k), timeout, deadline)
        v += a
        st += b
        ds += c
    return v, st, ds


def selftest(res):
    """Broken records (taken from broken versions of the allocators, or made
    by hand) must be rejected with the right code."""
    d = os.path.join(core.VERIF, "selftest")
    want = json.load(open(os.path.join(d, "expect.json")))
    v, _, _ = judge(res, os.path.join(d, "records.nd"), "self")
    got = {}
    for cid, code, _ in v:
        got.setdefault(cid, set()).add(code)
    for cid, codes in want.items():
        if not set(codes) <= got.get(cid, set()):
            raise ToolError("self test: %s should give %s, gave %s" % (cid, codes, got.get(cid)))
    return len(want)


def regress(res, bindir, alg):
    """The committed cases (bugs that were fixed, known findings)."""
    out = []
    for fn in sorted(os.listdir(os.path.join(core.VERIF, "regress"))):
        src = os.path.join(core.VERIF, "regress", fn)
        text = open(src).read()
        keep = [c for c in text.split("case ")[1:] if c.split()[1] == alg]
        if not keep:
            continue
        p = res.path("regress-%s-%s" % (alg, fn))
        with open(p, "w") as f:
            f.write("".join("case " + c for c in keep))
        o = p + ".nd"
        dead = []
        for _ in range(4):
            rc, txt = core.run([rav(bindir), "file", p, o] + dead, timeout=120, gb=6)
            if rc == 0:
                break
            dead.append(open(o + ".cur").read())
        else:
            raise ToolError("regress: harness keeps dying")
        out.append(o)
    return out


def trace(res, line, n):
    """A counterexample trace of the machine for one record."""
    p = res.path("viol-%d.nd" % n)
    with open(p, "w") as f:
        f.write(line + "\n")
    r = core.tlc("RegMachine", "RegMachineTrace.cfg", res.path("md-viol"), {"RA_CASES": p}, timeout=60)
    o = r["out"]
    i = o.find("Error: Invariant")
    return o[i:i + 12000] if i >= 0 else o[-3000:]


def explain(res, bindir, cid, code, detail, line, n):
    t = "case %s: %s %s\n" % (cid, code, detail)
    parts = cid.split(":")
    if len(parts) == 3:
        rc, o = core.run([rav(bindir), "one", parts[0], parts[1], parts[2]], timeout=60)
        t += "regenerate: %s one %s %s %s [min]\n%s\n" % (rav(bindir), *parts, o[:8000])
        rc, o = core.run([rav(bindir), "one", parts[0], parts[1], parts[2], "min"], timeout=30)
        if rc == 0:
            t += "minimised:\n%s\n" % o[:8000]
    if code not in ("malformed",):
        t += "machine trace:\n" + trace(res, line, n)
    return t + "\nrecord:\n" + line + "\n"


# Bounds of spec/Programs.tla: every function within one of these is allocated.
LINE, FORK, LOOP = 0, 1, 2
SCOPES = {
    "quick": [
        dict(PR_SHAPE=LINE, PR_TOTAL=3),
        dict(PR_SHAPE=LINE, PR_TOTAL=4, PR_RICH=0, PR_INSTS=2),
        dict(PR_SHAPE=FORK, PR_TOTAL=3, PR_RICH=0, PR_CLOB=0),
        dict(PR_SHAPE=LOOP, PR_TOTAL=3, PR_RICH=0, PR_CLOB=0),
    ],
    "thorough": [
        dict(PR_SHAPE=LINE, PR_TOTAL=4, PR_INSTS=2),
        dict(PR_SHAPE=LINE, PR_TOTAL=3, PR_REGS=3),
        dict(PR_SHAPE=LINE, PR_TOTAL=5, PR_RICH=0, PR_INSTS=2, PR_CLOB=0),
        dict(PR_SHAPE=FORK, PR_TOTAL=3, PR_INSTS=1),
        dict(PR_SHAPE=FORK, PR_TOTAL=4, PR_RICH=0, PR_INSTS=1, PR_CLOB=0),
        dict(PR_SHAPE=LOOP, PR_TOTAL=3, PR_INSTS=1),
        dict(PR_SHAPE=LOOP, PR_TOTAL=4, PR_RICH=0, PR_INSTS=1, PR_CLOB=0),
    ],
}


def write_programs(res, k, scope, secs, workers):
    """TLC writes the functions of one scope; returns (file, how many, complete?)."""
    path = res.path("programs-%d.txt" % k)
    n, states, done, last = core.tlc_lines("Programs", "Programs.cfg", res.path("md-prog-%d" % k),
                                           {a: str(b) for a, b in scope.items()}, path, "P|", secs, workers)
    if n == 0 or "is violated" in last:
        raise ToolError("Programs.tla %s: %s" % (scope, last[-1500:]))
    return path, n, states, done


def programs(res, bindir, algs):
    """Allocate every function of the specification's scopes."""
    quick = res.tier == "quick"
    scopes = SCOPES[res.tier if res.tier in SCOPES else "quick"]
    w = max(1, core.NCPU // len(scopes))
    made = core.parallel([lambda k=k, s=s: write_programs(res, k, s, 120 if quick else 500, w)
                          for k, s in enumerate(scopes)])
    jobs, names = [], []
    shards = max(1, core.NCPU // 2) if quick else core.NCPU
    for alg in algs:
        for k, (path, n, _, _) in enumerate(made):
            for sh in range(shards):
                nm = "prog-%s-%d-%d" % (alg, k, sh)
                names.append(nm)
                jobs.append(lambda alg=alg, path=path, sh=sh, nm=nm: prog_shard(
                    res, bindir, alg, path, sh, shards, 6 if quick else 30, nm))
    out = core.parallel(jobs)
    for path, _, _, _ in made:
        os.remove(path)
    return names, out, {
        "functions": sum(m[1] for m in made),
        "states_of_the_writer": sum(m[2] for m in made),
        "scopes": [dict(s, functions=m[1], complete=m[3]) for s, m in zip(scopes, made)],
        "allocations": sum(o[0]["ran"] for o in out),
        "outcomes": merge(o[0]["outcomes"] for o in out),
    }


def prog_shard(res, bindir, alg, path, sh, shards, emit, name):
    out = res.path(name + ".nd")
    skip, lines, total = 0, [], None
    for tries in range(3):
        cmd = [rav(bindir), "prog", path, alg, "3", str(core.SEED), str(sh), str(shards), str(emit), "4", out, str(skip)]
        rc, txt = core.run(cmd, timeout=150 if res.tier == "quick" else 900, gb=6)
        if rc == 0:
            lines += open(out).read().splitlines()
            total = json.loads([l for l in txt.splitlines() if l.startswith("SUMMARY ")][-1][8:])
            break
        # It died or hung: that is the answer for the case it was working on.
        code = struct.unpack("<Q", open(out + ".cur", "rb").read(8))[0]
        rc2, text = core.run([rav(bindir), "progtext", path, alg, str(code)], timeout=60)
        one = res.path(name + ".case")
        with open(one, "w") as f:
            f.write(text)
        rc2, t2 = core.run([rav(bindir), "file", one, out, "prog:%s:%d:%d" % (alg, code % 3, code // 3)], timeout=60)
        if rc2 != 0:
            raise ToolError("harness died: rc=%s %s" % (rc, txt[-2000:]))
        lines += open(out).read().splitlines()
        log("shard %s: process ended early at %d" % (name, code))
        skip = code // 3 + 1
    if total is None:
        total = {"ran": 0, "features": 0, "insts": 0, "edits": 0, "outcomes": {}, "screen": {}}
    with open(out, "w") as f:
        f.write("\n".join(lines) + ("\n" if lines else ""))
    return total, out


def alloc_check(algs, codes, profiles, asserts, quick=(30, 160, 8), thorough=(420, 1500, 40), small_scope=True):
    """codes: which machine verdicts violate this property.
    asserts: which builds ("checked" has debug assertions, "plain" has not).
    quick/thorough: (seconds per shard, records per shard, suspicious records per kind)."""

    def f(res):
        secs, emit, max_bad = quick if res.tier == "quick" else thorough
        builds = {}
        for a in asserts:
            builds[a] = core.cargo("harness", "release" if a == "checked" else "plain")
        nself = selftest(res)
        # shards: every algorithm x build gets the same number of processes
        combos = [(a, b) for a in algs for b in asserts]
        jobs, names = [], []
        per = max(1, core.NCPU // len(combos))
        for ci, (a, b) in enumerate(combos):
            for k in range(per):
                start = (core.SEED * 1_000_003 + 7919 * (ci * per + k)) * 1_000_000
                n = "s-%s-%s-%d" % (a, b, k)
                names.append((n, a, b))
                jobs.append(lambda a=a, b=b, s=start, n=n: shard(
                    res, builds[b], a, profiles, s, 10_000_000, emit, max_bad, secs, n))
        out = core.parallel(jobs)
        files = [(n, b, o[1]) for (n, a, b), o in zip(names, out)]
        for a in algs:
            for k, o in enumerate(regress(res, builds[asserts[-1]], a)):
                files.append(("regress-%s-%d" % (a, k), asserts[-1], o))
        written = {}
        if small_scope:
            names2, out2, written = programs(res, builds[asserts[0]], algs)
            # one file per allocator and group of shards, so that TLC starts seldom
            for g in range(0, len(names2), 8):
                p = res.path("progs-%d.nd" % g)
                with open(p, "w") as f:
                    for o in out2[g:g + 8]:
                        f.write(open(o[1]).read())
                        os.remove(o[1])
                files.append(("progs-%d" % g, asserts[0], p))
        v = core.parallel([lambda n=n, p=p: judge(res, p, n, timeout=120 if res.tier == "quick" else 3000)
                           for n, b, p in files])
        states = sum(x[1] for x in v)
        distinct = sum(x[2] for x in v)
        known = core.findings(res.prop)
        nrec, kinds, samples, shown = 0, {}, [], 0
        for (n, b, p), (bad, _, _) in zip(files, v):
            lines = [l for l in open(p).read().splitlines() if l]
            nrec += len(lines)
            byid = {}
            for l in lines:
                byid[json.loads(l)["id"]] = l
            if lines and len(samples) < 2 and len(lines[0]) < 6000:
                samples.append(json.loads(lines[0]))
            for cid, code, detail in sorted(bad, key=lambda x: len(byid[x[0]])):
                kinds[code] = kinds.get(code, 0) + 1
                if not any(code == c or (c.endswith("-") and code.startswith(c)) for c in codes):
                    continue
                if (cid, code) in known:
                    res.known.append("%s: %s" % (cid, known[(cid, code)]))
                    continue
                if cid.startswith("kf-") and not any(k[0] == cid for k in known):
                    continue
                shown += 1
                text = explain(res, builds[b], cid, code, detail, byid[cid], shown) if shown <= 2 \
                    else "case %s: %s %s\n%s" % (cid, code, detail, byid[cid])
                res.violation("%s %s %s" % (cid, code, detail), text)
        ran = sum(o[0]["ran"] for o in out)
        log("%d functions allocated, %d outputs executed on the machine, %d states; verdicts %s"
            % (ran, nrec, distinct, kinds or "none"))
        res.known = sorted(set(res.known))
        res.coverage = {
            "states": distinct,
            "transitions": states,
            "traces_validated_against_impl": nrec,
            "samples": samples,
            "functions_allocated_and_screened": ran,
            "instructions_allocated": sum(o[0]["insts"] for o in out),
            "edits_emitted": sum(o[0]["edits"] for o in out),
            "distinct_feature_vectors": max(o[0]["features"] for o in out),
            "outcomes": merge(o[0]["outcomes"] for o in out),
            "machine_verdicts": kinds,
            "self_test_records_rejected": nself,
            "functions_written_by_the_specification": written,
            "records_not_finished": res.unfinished,
        }
        res.assumptions = [
            "Input functions are well formed in the sense of the Function trait's documentation.",
            "A fast approximation of the machine picks which outputs TLC executes: every output it finds "
            "suspicious plus a spread over behaviours not seen before.",
        ]
        bad_runs = res.coverage["outcomes"].get("ok", 0) == 0
        if bad_runs and not res.violations:
            raise ToolError("no function was allocated successfully")

    return f


def merge(ds):
    t = {}
    for d in ds:
        for k, x in d.items():
            t[k] = t.get(k, 0) + x
    return t
