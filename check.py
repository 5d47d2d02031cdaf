#!/usr/bin/env python3
"""Decides one property on /repo's current tree.

  check.py --property P01 [--tier quick|thorough] [--seed N]
  check.py --replay replay/P01-....json

exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself failed."""
import argparse
import json
import os
import shutil
import sys
import tempfile
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)

from mon import build, model, runner   # noqa: E402
from mon import plans                  # noqa: E402


def load_known():
    """(findings, fixed): lines 'finding: property=<id> key=<key> <text>' and 'fixed: property=<id> <commit> <text>'"""
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for l in f:
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == "finding:":
                out.append((w[1].split("=", 1)[1], w[2].split("=", 1)[1], w[3].strip()))
    return out


def write_replay(prop, seed, tier, k, v):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%d-%d.json" % (prop, tier, seed, k))
    with open(p, "w") as f:
        json.dump(v, f, indent=1)
    return os.path.relpath(p, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--minutes", type=float, default=float(os.environ.get("VERIF_MINUTES") or 0))
    a = ap.parse_args()
    if a.replay:
        return plans.replay(a.replay)
    if a.property not in plans.PLANS:
        print("unknown property", a.property)
        return 3
    t0 = time.time()
    ctx = plans.Context(a.property, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed, a.minutes)
    try:
        plans.PLANS[a.property](ctx)
    except build.BuildError as e:
        print("the tree or a harness does not build:\n%s" % e)
        return 3
    except runner.HarnessError as e:
        print("harness error:", e)
        if not ctx.violations:
            return 4
        print("(violations were found before it)")
    known = [k for k in load_known() if k[0] == a.property]
    bad, hits = [], {}
    for v in ctx.violations:
        for _, key, text in known:
            if v.get("key") == key:
                hits.setdefault(key, text)
                break
        else:
            bad.append(v)
    for key, text in hits.items():
        print("KNOWN-FINDING: property=%s %s" % (a.property, text))
    for k, v in enumerate(bad[:5]):
        v.update({"property": a.property, "seed": a.seed, "tier": ctx.tier})
        p = write_replay(a.property, a.seed, ctx.tier, k, v)
        print("  %s" % v["what"])
        for c in (v.get("case") or [])[:12 if v.get("type") == "native" else 40]:
            print("    | %s" % model.short(c, 240))
        print("VIOLATION property=%s replay=%s" % (a.property, p))
    if not ctx.coverage.get("evaluations") and not bad:
        print("nothing was observed")
        return 4
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": a.property, "tier": ctx.tier, "seed": a.seed, "level": "exploration", "coverage": ctx.coverage,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not bad:
        print("%s held: %s evaluations, %s distinct non-trivial, %.1f s" % (a.property, ctx.coverage["evaluations"], ctx.coverage["distinct_nontrivial"], time.time() - t0))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
