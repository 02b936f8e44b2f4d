"""Checks that replay the behaviour of internal building blocks."""
import json, os, time
import core
from alloc import verdicts
from core import log, ToolError


def judge(res, module, path, name, timeout, deadline=None):
    """Execute the records of a file on a specification module."""
    recs = [l for l in open(path).read().splitlines() if l]
    if not recs:
        return [], 0, 0
    deadline = deadline or time.time() + 2.5 * timeout
    left = min(timeout, deadline - time.time())
    if left < 5:
        res.unfinished += len(recs)
        return [], 0, 0
    r = core.tlc(module, module + ".cfg", res.path("md-" + name), {"RA_CASES": path}, timeout=left)
    v = verdicts(r["out"])
    if r["ok"] or (r["timeout"] and v):
        return v, r["states"], r["distinct"]
    if len(recs) == 1:
        cid = json.loads(recs[0])["id"]
        if r["timeout"]:
            res.unfinished += 1
            return [], 0, 0
        log("TLC cannot execute record %s: %s" % (cid, r["out"][-1500:]))
        return [(cid, "malformed", "the record cannot be executed")], 0, 0
    h = len(recs) // 2
    out, st, ds = [], 0, 0
    for k, part in enumerate((recs[:h], recs[h:])):
        p = "%s.%d" % (path, k)
        with open(p, "w") as f:
            f.write("\n".join(part) + "\n")
        a, b, c = judge(res, module, p, "%s.%d" % (name, k), timeout, deadline)
        out, st, ds = out + a, st + b, ds + c
    return out, st, ds


def selftest(res, module, want):
    """Records made wrong by hand must be rejected."""
    p = os.path.join(core.VERIF, "selftest", module + ".nd")
    if not os.path.exists(p):
        return 0
    exp = json.load(open(os.path.join(core.VERIF, "selftest", module + ".json")))
    v, _, _ = judge(res, module, p, "self-" + module, 120)
    got = {}
    for cid, code, _ in v:
        got.setdefault(cid, set()).add(code)
    for cid, codes in exp.items():
        if not set(codes) <= got.get(cid, set()) or (not codes and got.get(cid)):
            raise ToolError("self test %s: %s should give %s, gave %s" % (module, cid, codes, got.get(cid)))
    return len(exp)


def design(res, module, cfgs, timeout=200):
    """Exhaustive model checking of a design-level specification."""
    tot = [0, 0]
    for cfg in cfgs:
        r = core.tlc(module, cfg, res.path("md-" + cfg), timeout=timeout, workers=4, heap="6g")
        if not r["ok"]:
            raise ToolError("%s/%s: %s" % (module, cfg, r["out"][-2500:]))
        tot[0] += r["states"]
        tot[1] += r["distinct"]
    return tot


def kit_check(jobs, codes=None, quick=(20, 250), thorough=(400, 4000), designs=(), crate="harness-int",
              binary="ravint", profile="release", assumptions=(), hooks=True, tool=False):
    """jobs: list of (subcommand, TLA+ module).  Everything the module reports
    is a violation unless `codes` restricts it."""

    def f(res):
        secs, want = quick if res.tier == "quick" else thorough
        bindir = core.cargo(crate, profile, hooks=hooks,
                            features=[s for s, _ in jobs] if crate == "harness-int" else None)
        exe = os.path.join(bindir, binary)
        if tool:
            # The command-line tool, built outside the repository.
            os.environ["RAVIO_TOOL"] = os.path.join(core.cargo(core.REPO, profile, package="regalloc2-tool"),
                                                    "regalloc2-tool")
        nself = sum(selftest(res, m, None) for m in sorted({m for _, m in jobs}))
        per = max(1, core.NCPU // len(jobs))
        runs = [(s, m, k) for s, m in jobs for k in range(per)]

        def one(s, m, k):
            out = res.path("%s-%d.nd" % (s, k))
            rc, txt = core.run([exe, s, str(core.SEED), str(k), str(per), str(secs), str(want), out],
                               timeout=secs + 60, gb=6)
            line = [l for l in txt.splitlines() if l.startswith("SUMMARY ")]
            if rc != 0 or not line:
                # The code under test took the process down or never came back.
                what = "hang" if rc == -1 else "crash"
                return {"ran": 0, "suspicious": {what: 1}}, out, (what, txt[-3000:])
            return json.loads(line[-1][8:]), out, None

        outs = core.parallel([lambda r=r: one(*r) for r in runs])
        limit = 120 if res.tier == "quick" else 2000
        good = [(r, o) for r, o in zip(runs, outs) if o[2] is None]
        for r, o in zip(runs, outs):
            if o[2]:
                res.violation("%s %s" % (r[0], o[2][0]),
                              "%s %s seed %d shard %d of %d: %s\n%s" % (binary, r[0], core.SEED, r[2], per, *o[2]))
        v = core.parallel([lambda r=r, o=o: judge(res, r[1], o[1], "%s-%d" % (r[0], r[2]), limit)
                           for r, o in good])
        known = core.findings(res.prop)
        nrec, kinds, samples = 0, {}, []
        for (r, o), (bad, _, _) in zip(good, v):
            lines = [l for l in open(o[1]).read().splitlines() if l]
            nrec += len(lines)
            byid = {json.loads(l)["id"]: l for l in lines}
            if lines and len(samples) < 3:
                samples.append(json.loads(min(lines[len(lines) // 2:], key=len)))
            for cid, code, detail in sorted(bad, key=lambda x: len(byid.get(x[0], ""))):
                kinds[code] = kinds.get(code, 0) + 1
                if codes and code not in codes:
                    continue
                if (cid, code) in known:
                    res.known.append("%s: %s" % (cid, known[(cid, code)]))
                    continue
                res.violation("%s %s %s" % (cid, code, detail),
                              "case %s: %s %s (module %s)\nrecord:\n%s" % (cid, code, detail, r[1], byid.get(cid)))
        dst = [0, 0]
        for m, cfgs in designs:
            a = design(res, m, cfgs if isinstance(cfgs, (list, tuple)) else cfgs[res.tier])
            dst = [dst[0] + a[0], dst[1] + a[1]]
        ran = sum(o[0]["ran"] for _, o in good)
        res.coverage = {
            "states": sum(x[2] for x in v) + dst[1],
            "transitions": sum(x[1] for x in v) + dst[0],
            "traces_validated_against_impl": nrec,
            "samples": samples,
            "cases_run_and_screened": ran,
            "design_states": dst[1],
            "verdicts": kinds,
            "self_test_records_rejected": nself,
            "records_not_finished": res.unfinished,
        }
        res.assumptions = list(assumptions) + [
            "A quick look in the harness picks which records TLC executes: every suspicious one and a spread "
            "over the rest."]
        log("%d cases run, %d executed on the specification, %d states, verdicts %s"
            % (ran, nrec, res.coverage["states"], kinds or "none"))
        if ran == 0 and not res.violations:
            raise ToolError("nothing was run")

    return f
