#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree.
exit 0: held on everything explored; 1: VIOLATION line; 2: the check could not run."""
import json, os, re, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
import props

LEVEL = "model_checking"


def findings(prop):
    out = []
    for l in open(os.path.join(vf.VERIF, "known-findings.txt")):
        m = re.match(r'finding: property=(\S+) id=(\S+) request="([^"]*)" (.*)', l)
        if m and m.group(1) == prop and not m.group(2).startswith("<"):
            out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    c = props.Ctx(prop)
    known = findings(prop)
    getattr(props, prop)(c)
    shown = []
    if known:
        t = vf.conform([r for _, r, _ in known])
        c.tally.add(t)
        dev = {l for _, l in t.deviating}
        for i, (k, r, what) in enumerate(known):
            if "%d %s" % (i + 1, r) in dev:
                shown.append("KNOWN-FINDING: property=%s %s %s: %s" % (prop, k, r, what))
    t = c.tally
    rep = os.path.join(vf.VERIF, "evidence", "replay-%s.txt" % prop)
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    if os.path.exists(rep):
        os.remove(rep)
    bad = list(t.rejected) + [({"op": "custom", "what": v}, None) for v in getattr(c, "violations", [])]
    samples = [{"request": r.split(" ", 1)[1] if r else None, "event": vf.describe(e)} for e, r in (t.rejected[:3] or t.deviating[:3])]
    samples += getattr(c, "samples", [])
    samples += t.samples[:6]
    cov = {"states": c.dis + t.tlc_states, "transitions": c.gen + t.tlc_trans, "traces_validated_against_impl": t.events + getattr(c, "traces", 0),
           "models": c.models, "spec_generated_vectors": c.vectors, "requests": t.requests,
           "explained_by": {"standard": t.std, "named deviations KF1-KF5": t.built, "some of them": t.mixed, "nothing": t.no},
           "branches": dict(sorted(t.branches.items())), "samples": samples}
    cov.update(getattr(c, "extra", {}))
    vf.write_evidence(prop, LEVEL, cov, t0, len(bad), getattr(c, "assumptions", []) or [
        "the Unicode data of spec/data/ucd.json, taken from Go x/net/idna, x/text and ICU 78, are Unicode 17",
        "TLC evaluates the specification correctly", "sanitizers report every out-of-bounds access of the explored calls"])
    for l in shown:
        print(l)
    if bad:
        with open(rep, "w") as f:
            f.write("# requests that the specification does not explain; re-run: python3 /verif/replay.py %s\n" % rep)
            for e, r in bad[:200]:
                f.write("%s\n#   %s\n" % (r.split(" ", 1)[1] if r else "# " + e["what"] if e["op"] == "custom" else "# ?", vf.describe(e)))
            for cr in t.crashes[:20]:
                f.write("# %s: %s\n" % (cr[2], cr[3]))
        for e, r in bad[:5]:
            print("  unexplained:", (r or "")[:300], vf.describe(e))
        for cr in t.crashes[:3]:
            print("  %s: %s" % (cr[2], cr[3]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    print("%s: %d model states, %d spec-generated inputs, %d recorded events explained (%d std, %d by named deviations), %.1fs" % (
        prop, c.dis, c.vectors, t.events + getattr(c, "traces", 0), t.std, t.built + t.mixed, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except vf.Dead as e:
        rep = os.path.join(vf.VERIF, "evidence", "replay-%s.txt" % sys.argv[1])
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        open(rep, "w").write("# a process that uses the library dies before its first call\n# %s\n" % str(e).replace("\n", "\n# "))
        print("  a process that uses the library dies before its first call: %s" % e)
        print("VIOLATION property=%s replay=%s" % (sys.argv[1], rep))
        rc = 1
    except vf.CheckError as e:
        print("check error: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        vf.cleanup()
    sys.exit(rc)
