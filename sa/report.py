"""Evidence, VIOLATION / KNOWN-FINDING lines and the exit code of one check."""
import json
import os

TRUSTED = [
    "CPython's documented semantics of the statements, operators and builtins the package uses, as modelled in sa/interp.py",
    "the abstract domain: segments/trees of nodes with sequence and integer abstractions (sa/state.py, sa/shapes.py, sa/lin.py, sa/trees.py)",
    "items are modelled by the effect-free equality (and, where the structure needs it, a total order) they are given",
]


def known(here):
    p = os.path.join(here, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: property="):
                _, _, rest = ln.partition("known: property=")
                prop, _, txt = rest.partition(" ")
                out.append((prop, txt.strip()))
    return out


def finish(prop, rs, tier, wall, here, partial=False):
    kn = [t for p, t in known(here) if p == prop]
    viol, hit = [], []
    for r in rs:
        if r["verdict"] == "violated":
            m = [t for t in kn if t.split("|")[0].strip() == r["name"]]
            (hit if m else viol).append((r, m[0] if m else ""))
    anch = [r for r in rs if r["verdict"] == "anchor"]
    proved = [r for r in rs if r["verdict"] == "proved"]
    und = [r for r in rs if r["verdict"] in ("undecided", "not run")]
    bnd = [r for r in rs if r["verdict"] == "bounded"]
    funcs = sorted({f for r in rs for f in r["functions"]})
    level = level_of(prop, here)
    if not partial:
        cov = dict(
            obligations=len(rs) - (len(bnd) if level == "proof" else 0), discharged=len(proved), bounded_obligations=len(bnd), checker_cmd=f"python3 check.py {prop}",
            trusted_base=TRUSTED,
            explanation="Abstract interpretation of the current sources of the package: every obligation is a public "
                        "operation applied to every state of its precondition (unbounded contents, or up to the bound listed under 'bounded'); the exit states "
                        "of the analysis are compared with the operation's contract.",
            exit_states=sum(r["exits"] for r in rs), functions_analysed=len(funcs), functions=funcs,
            loops=sum(r["loops"] for r in rs), call_sites=sum(r["calls"] for r in rs),
            bounded=[dict(obligation=r["name"], bound=r["why"]) for r in bnd],
            undecided=[dict(obligation=r["name"], reason=r["why"]) for r in und],
            refuted=[r["name"] for r, _ in viol], known=[r["name"] for r, _ in hit],
            samples=[dict(obligation=r["name"], exits=r["exits"], loops=r["loops"], call_sites=r["calls"],
                          verdict=r["verdict"]) for r in rs[:6]])
        ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick",
                  seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
                  assumptions=TRUSTED, wall_s=round(wall, 2), violations=len(viol))
        os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
        with open(os.path.join(here, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for r, t in hit:
        print(f"KNOWN-FINDING: property={prop} {t or r['name']}")
    for r in anch:
        print(f"ANALYSIS BROKEN: {r['name']}: {r['why']}")
    if viol:
        rp = os.path.join(here, "evidence", f"{prop}.replay.txt")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            for r, _ in viol:
                f.write(f"obligation: {r['name']}\nfound: {r['why']}\n")
                if r.get("site"):
                    f.write(f"at: {r['site']}\n")
                if r.get("witness"):
                    f.write(f"in the state: {r['witness']}\n")
                for t in r.get("trace") or []:
                    f.write(f"  path: {t}\n")
                f.write(f"again: python3 {os.path.join(here, 'check.py')} {prop} --only {r['name']!r} -v\n\n")
        for r, _ in viol[:5]:
            print(f"  {r['name']}: {r['why']}")
            if r.get("witness"):
                print(f"    in the state {r['witness']}")
            for t in (r.get("trace") or [])[-4:]:
                print(f"    path {t}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if anch:
        return 2
    print(f"{prop}: {len(proved)} of {len(rs)} obligations discharged, {len(bnd)} up to a bound, {len(und)} undecided, none refuted "
          f"({len(funcs)} functions, {round(wall, 1)} s)")
    for r in und[:10]:
        print(f"  undecided: {r['name']}: {r['why'][:160]}")
    return 0


def level_of(prop, here):
    for c in json.load(open(os.path.join(here, "MANIFEST.json")))["checks"]:
        if c["property"] == prop:
            return c["level"]
    return "other"
