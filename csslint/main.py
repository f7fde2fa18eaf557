"""csslint: decide one property of comb_spec_searcher from its source.

usage: python3 -m csslint.main --property C15 [--tier quick|thorough] [--root /repo]
"""

import argparse
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import comparer, regions, rules, selftest
from .model import Program

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

_STATE = {}


def load_ref():
    trees = {}
    base = os.path.join(HERE, "ref")
    import ast

    for dp, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if f.endswith(".py.txt"):
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, base)[:-4]
                with open(p, encoding="utf-8") as fh:
                    trees[rel] = ast.parse(fh.read())
    return Program(None, trees)


class Finding:
    def __init__(self, rule, where, text, detail=""):
        self.rule = rule
        self.where = where
        self.text = text
        self.detail = detail

    def key(self):
        return f"{self.rule}:{self.where}"


def _job(qual):
    cmp_ = _STATE["cmp"]
    try:
        v = cmp_.check(qual)
        return (qual, v.status, v.why, v.describe(), v.line, v.module, v.facts)
    except Exception:  # never crash the check
        return (qual, "undecided", traceback.format_exc().splitlines()[-1][:200], "", 0, "", 0)


def run_jobs(quals):
    n = min(8, os.cpu_count() or 1)
    if n > 1 and len(quals) > 4:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(n) as p:
            return list(p.imap_unordered(_job, quals, chunksize=1))
    return [_job(q) for q in quals]


def compare_region(ref, cur, prop, cmp_, cov, out):
    funcs, _ = regions.functions(ref, prop)
    quals = [f.qual + (".setter" if f.setter else "") for f in funcs]
    res = run_jobs(quals)
    cov["functions_in_region"] = len(quals)
    cov["functions_compared"] = sum(r[1] in ("same", "changed") for r in res)
    cov["behaviour_facts_compared"] = sum(r[6] for r in res)
    und = sorted((r for r in res if r[1] == "undecided"), key=lambda r: r[0])
    cov["undecided"] = [{"function": r[0], "why": r[2][:200]} for r in und]
    cov["gone"] = sorted(r[0] for r in res if r[1] == "gone")
    for r in sorted(res):
        if r[1] == "changed":
            out.append(Finding("changed-behaviour", r[0], f"{r[5]}:{r[4]} {r[0]}: {r[2]}", r[3]))
        elif r[1] == "gone" and not r[0].split(".")[-1].startswith("_"):
            out.append(Finding("gone", r[0], f"{r[5]}: {r[0]} is no longer defined"))
    classes = sorted({f.cls.name for f in funcs if f.cls is not None})
    names = 0
    for c in classes:
        try:
            for why, line in cmp_.check_class(c):
                out.append(Finding("class-level", f"{c}:{why}", f"{cur.classes[c].module}:{line} {why}"))
            for v in cmp_.new_dispatch(c):
                names += 1
                if v.status == "changed" and not regions.excluded(cur.get(v.qual) or cmp_.cur.get(v.qual)):
                    out.append(Finding("new-dispatch", v.qual, f"{v.module}:{v.line} {v.qual}: {v.why}", v.describe()))
        except Exception as e:
            cov["undecided"].append({"class": c, "why": repr(e)[:200]})
    cov["classes_checked"] = len(classes)
    mods = sorted({f.module for f in funcs})
    for m in mods:
        for why, line in cmp_.module_consts(m):
            out.append(Finding("module-constant", f"{m}:{why}", f"{m}:{line} {why}"))
    cov["modules_checked"] = mods
    cov["samples"] = [
        {"function": r[0], "where": f"{r[5]}:{r[4]}", "verdict": r[1], "facts": r[6]}
        for r in sorted(res, key=lambda r: (-r[6], r[0]))[:5]
    ]


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                parts = dict(x.split("=", 1) for x in line[8:].split() if "=" in x)
                if parts.get("property") == prop:
                    out[parts.get("key", "")] = line
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--evidence", default=os.path.join(VERIF, "evidence"))
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    t0 = time.time()
    prop = a.property
    out, cov = [], {}
    ref = load_ref()
    cur = Program(a.root)
    for e in cur.errors:
        out.append(Finding("unparsable", str(e), f"source does not parse: {e}"))
    cmp_ = comparer.Comparer(ref, cur)
    _STATE["cmp"] = cmp_
    cov["selftest"] = selftest.run()
    compare_region(ref, cur, prop, cmp_, cov, out)
    rules.run(prop, ref, cur, a.tier, cov, out)
    cov["explanation"] = EXPLANATION
    known = known_findings(prop)
    os.makedirs(a.evidence, exist_ok=True)
    bad = 0
    lines = []
    for f in out:
        if f.key() in known:
            print(f"KNOWN-FINDING: property={prop} {f.text}")
            continue
        bad += 1
        path = os.path.join(a.evidence, f"replay-{prop}-{bad}.txt")
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(f"property {prop}\nrule {f.rule}\n{f.text}\n\n{f.detail}\n")
            fh.write(f"\nreplay: cd {VERIF} && python3 -m csslint.main --property {prop} --root {a.root}\n")
        print(f"[{f.rule}] {f.text}")
        for ln in f.detail.splitlines()[1:6]:
            print("   ", ln[:300])
        lines.append(f"VIOLATION property={prop} replay={path}")
    for ln in lines:
        print(ln)
    ev = {
        "property": prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"rule": f.rule, "where": f.where, "text": f.text} for f in out if f.key() not in known],
    }
    with open(os.path.join(a.evidence, f"{prop}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
    print(
        f"{prop}: {cov['functions_compared']}/{cov['functions_in_region']} functions, "
        f"{cov['behaviour_facts_compared']} behaviour facts, {cov.get('obligations', 0)} obligations, "
        f"{len(cov['undecided'])} undecided, {bad} violation(s), {ev['wall_s']} s"
    )
    return 1 if bad else 0


EXPLANATION = (
    "Static only: /repo is parsed, never run. Every function of the property's region is reduced to behaviour "
    "facts (guarded effects and results over canonical terms, helpers expanded) and compared with the facts of the "
    "reviewed tree; local differences are violations, whole rewrites are listed as undecided. The property's own "
    "obligations (rules) are evaluated on the current facts."
)
ASSUMPTIONS = [
    "dynamic features outside the analysed fragment (eval, setattr with computed names, monkey patching) are absent",
    "functions listed as undecided were not decided on this run",
    "user supplied strategies and classes satisfy the contracts quoted in the property",
]

if __name__ == "__main__":
    sys.exit(main())
