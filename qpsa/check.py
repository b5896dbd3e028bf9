"""python3 -m qpsa.check <property id> [--thorough] [--repo DIR]

Decides one property on the current source of the repository.  Nothing of the repository is imported or run."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from . import cones                                          # noqa: E402
from .conform import World                                   # noqa: E402
from .terms import T, mk, walk   # noqa: E402
from .source import AnalysisBroken                           # noqa: E402
from . import rules, clauses, obligations, orders, duties, manners          # noqa: E402,F401


def raise_view(w, o):
    """the part of an outcome that says when which error is raised"""
    C = w.canon
    OKAY = mk("ref", "<value>")
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is None:
            if t.op == "ite":
                r = C(mk("ite", t.args[0], go(t.args[1]), go(t.args[2])))
            elif t.op in ("raised", "raise"):
                r = t
            elif t.op == "r" or not any(x.op in ("raised", "raise") for x in walk(t)):
                r = OKAY
            else:
                r = t
            memo[t] = r
        return r
    return tuple(None if x is None else go(x) for x in (o.ref, o.cur))


def concerns_raises(w, o):
    if any(isinstance(x, T) and x.op in ("raised", "raise") for e in o.edits for x in (e.a, e.b)):
        return True
    if o.ref is None or o.cur is None:
        return any(y.op in ("raised", "raise") for x in (o.ref, o.cur) if isinstance(x, T) for y in walk(x))
    try:
        a, b = raise_view(w, o)
    except RecursionError:
        return False
    return a is not b


def concerns_effects(w, o):
    if o.name == "effect":
        return any(isinstance(x, T) and any(y.op == "mut" for y in walk(x)) for x in (o.ref, o.cur))
    return False


def of_own(diff, names):
    """the outcomes of these names; a change of a value does not count again where a table merely holds the value"""
    others = {e.text() for o in diff for e in o.edits if not o.name.endswith(("._metadata", "._objdata"))}
    out = []
    for o in diff:
        if o.name.rpartition(".")[2] not in names:
            continue
        if o.name.endswith(("._metadata", "._objdata")) and o.edits and all(e.text() in others for e in o.edits):
            continue
        out.append(o)
    return out


FILTER = {"raises": concerns_raises, "effects": concerns_effects}


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p):
        line = line.strip()
        if line.startswith("finding:"):
            head, _, text = line[len("finding:"):].partition("::")
            d = dict(x.split("=", 1) for x in head.split())
            out.append((d["property"], d["construct"], text.strip()))
    return out


def decide(prop, w, res, thorough):
    """-> violations, undecided, coverage, reason why the analysis is broken"""
    keys = cones.members(prop, res)
    if not keys:
        return [], [], {}, "the property's functions were not found"
    flt = FILTER.get(cones.CONES[prop].get("only"))
    found, undecided, count, obligations, terms = [], [], {}, 0, 0
    for k in keys:
        r = res[k]
        count[r.status] = count.get(r.status, 0) + 1
        obligations += len(r.outcomes)
        terms += r.nterms
        diff = [o for o in r.outcomes if o.status == "different"]
        if r.status == "decisive":
            edits = r.edits
            names = cones.part(prop, k)
            if names is not None:
                diff = of_own(diff, names)
                edits = [e for o in diff for e in o.edits]
                if not any(e.decisive for e in edits):
                    continue
            if flt is not None:
                diff = [o for o in diff if flt(w, o)]
                if not diff:
                    continue
                edits = [e for o in diff for e in o.edits]
            found.append(dict(rule="conformance", construct=k, where=r.where,
                              text="; ".join(e.text() for e in edits[:4]), edits=[e.text() for e in edits],
                              outcomes=[o.name for o in diff]))
        elif r.status in ("undecided", "unanalysed", "compensated", "vanished"):
            undecided.append(dict(construct=k, status=r.status, where=r.where, why=r.error or "; ".join(e.text() for e in r.edits[:3])))
    rule_cov, broken = [], None
    for rule in rules.RULES.get(prop, ()):
        try:
            rr = rule(w, thorough)
        except Exception as exc:           # a rule that cannot read this code decides nothing about it
            undecided.append(dict(construct=f"rule {getattr(rule, '__name__', '?')}", status="unanalysed", where="", why=f"{type(exc).__name__}: {exc}"))
            continue
        rule_cov.append(dict(rule=rr.name, statement=rr.statement, instances=len(rr.instances), discharged=rr.ok, undecided=len(rr.open),
                             sites=rr.instances[:40]))
        for c, where, text in rr.bad:
            found.append(dict(rule=rr.name, construct=c, where=where, text=text, edits=[], outcomes=[]))
        for c, where, text in rr.open:
            undecided.append(dict(construct=f"{rr.name}@{c}", status="undecided", where=where, why=text))
        broken = broken or (rr.broken and f"rule {rr.name}: {rr.broken}")
    cov = dict(functions_in_cone=len(keys), verdicts=count, outcomes_compared=obligations, comparison_steps=terms, rules=rule_cov,
               undecided=undecided, samples=[dict(function=k, status=res[k].status, outcomes=[o.name for o in res[k].outcomes][:6]) for k in keys[:5]])
    return found, undecided, cov, broken


def main(argv):
    t0 = time.time()
    prop = argv[0]
    thorough = "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    repo = argv[argv.index("--repo") + 1] if "--repo" in argv else "/repo"
    if prop not in cones.CONES:
        print(f"unknown property {prop}", file=sys.stderr)
        return 2
    try:
        w = World(os.path.join(repo, "src", "qp"), os.path.join(HERE, "ref", "qp"))
    except (AnalysisBroken, SyntaxError, OSError) as exc:
        print(f"analysis broken: {exc}", file=sys.stderr)
        return 2
    w.fast = not thorough
    w.limit = 2000000 if thorough else 400000
    res = w.run()
    found, undecided, cov, broken = decide(prop, w, res, thorough)
    if broken:
        print(f"analysis broken: {broken}", file=sys.stderr)
        return 2
    known = [(c, t) for p, c, t in load_known() if p == prop]
    news = []
    for f in found:
        hit = [t for c, t in known if c == f"{f['rule']}@{f['construct']}"]
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit[0]} [{f['where']}]")
        else:
            news.append(f)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
              coverage=dict(
                  explanation="Static analysis of the source under %s: every function in the property's cone is summarised as gated value-flow "
                              "terms (returned value, attributes written, effects, errors) and compared with the accepted definition of the "
                              "clause; plus the reference-free rules listed. No code of the repository is run." % os.path.join(repo, "src/qp"),
                  modules_parsed=len(w.U.modules), functions_parsed=len(w.U.funcs), source_shortcut=bool(w.fast), **cov),
              assumptions=["third-party functions (numpy, scipy, tables_io, qp_tdigest) are uninterpreted symbols with the algebraic laws listed in qpsa/canon.py",
                           "attributes are not rewritten by code outside src/qp",
                           "the accepted definitions in ref/ state the clauses of the property (confirmed by reading)"],
              wall_s=round(time.time() - t0, 3), violations=len(news))
    if news:
        rp = os.path.join(evdir, f"{prop}.violations.json")
        with open(rp, "w") as fh:
            json.dump(dict(property=prop, violations=news), fh, indent=1)
        for f in news[:12]:
            print(f"  {f['where']}: {f['construct']}: [{f['rule']}] {f['text'][:600]}")
    with open(os.path.join(evdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if news:
        print(f"VIOLATION property={prop} replay={os.path.relpath(rp, HERE)}")
        return 1
    print(f"{prop}: {cov['functions_in_cone']} functions, {cov['verdicts']}, {len(cov['rules'])} rules, {len(undecided)} undecided, {ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
