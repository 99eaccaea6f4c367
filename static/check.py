"""Decide one property of augpathlib from the source of /repo.

    check.py <property> [--tier quick|thorough] [--root DIR]

exit 0: every obligation holds; exit 1: a line VIOLATION per report; anything else: no answer."""
import argparse
import importlib
import json
import os
import pathlib
import sys
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
sys.path.insert(0, str(HERE))
sys.setrecursionlimit(20000)

import ctx as X  # noqa: E402
from model import Program, CONFIGS, AnalysisError  # noqa: E402

MODULES = ('rules_core', 'rules_attrs', 'rules_caches', 'rules_meta', 'rules_remotes', 'rules_misc', 'rules_pkg', 'rules_more', 'rules_values', 'rules_extra', 'rules_deep', 'rules_ssh', 'rules_folders', 'rules_links', 'rules_local', 'rules_fields')


def load_rules():
    for m in MODULES:
        if (HERE / f'{m}.py').exists():
            importlib.import_module(m)


def known():
    """{(property, construct key)} of the recorded, unrepaired findings"""
    out = {}
    f = VERIF / 'known_findings.txt'
    for line in f.read_text().splitlines() if f.exists() else ():
        line = line.strip()
        if line.startswith('finding:'):
            head, _, what = line[len('finding:'):].partition(' -- ')
            head = head.strip()
            p = head.split()[0].partition('=')[2]
            key = head.partition('key=')[2].strip()
            out[(p, key)] = what.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=('quick', 'thorough'))
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    load_rules()
    inv = set(json.loads((HERE / 'inventory.json').read_text()))
    if a.prop not in X.RULES:
        print(f'no rule for {a.prop}')
        return 2
    ran, viols, errors = [], {}, []
    for fn, cfgs, th in X.RULES[a.prop]:
        for c in cfgs + (th if a.tier == 'thorough' else ()):
            cx = None
            try:
                cx = X.Ctx(a.prop, Program(a.root, CONFIGS[c]), inv, a.tier)
                fn(cx)
            except AnalysisError as e:
                errors.append(f'{fn.__name__} [{c}]: {e}')
            except Exception as e:  # of the rule itself: no answer, unless something was found before
                traceback.print_exc()
                errors.append(f'{fn.__name__} [{c}]: {type(e).__name__}: {e}')
            if cx is not None:
                ran.append((fn, c, cx))
                for k, v in cx.viol.items():
                    viols.setdefault(k, v)
    kn = known()
    findings = {k: v for k, v in viols.items() if (a.prop, k) in kn}
    new = {k: v for k, v in viols.items() if k not in findings}
    obl, entries, fns, mods = {}, {}, set(), set()
    for fn, c, cx in ran:
        for k, n in cx.obl.items():
            obl[k] = obl.get(k, 0) + n
        for k, n in cx.entries.items():
            entries[k] = entries.get(k, 0) + n
        fns |= cx.functions
        mods |= {str(m) for m in cx.modules}
    total = sum(obl.values())
    nviol = len(viols)
    evd = VERIF / 'evidence'
    report = evd / f'{a.prop}.report.json'
    if not a.no_evidence:
        evd.mkdir(exist_ok=True)
        rep = dict(property=a.prop, root=a.root, violations=list(new.values()), known=list(findings.values()), errors=errors,
                   replay=f'python3 static/check.py {a.prop} --tier {a.tier}')
        report.write_text(json.dumps(rep, indent=1, default=str) + '\n')
        doc = ' '.join((X.RULES[a.prop][0][0].__doc__ or '').split())
        ev = dict(
            property=a.prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED') or 0), level='other',
            coverage=dict(
                explanation=(doc + ' ' if doc else '') +
                f'Source of {a.root} read on this run; {len(fns)} functions interpreted abstractly along every path '
                f'({sum(cx.npaths for _, _, cx in ran)} paths, {sum(cx.callsites for _, _, cx in ran)} call sites) '
                f'under {", ".join(sorted({c for _, c, _ in ran}))}; {total} obligations checked by the rules below, '
                f'{nviol} reported.',
                rules={k: obl[k] for k in sorted(obl)},
                entry_points={k: entries[k] for k in sorted(entries)},
                functions=len(fns),
                paths=sum(cx.npaths for _, _, cx in ran),
                call_sites=sum(cx.callsites for _, _, cx in ran),
                obligations=total,
                reported=nviol,
                configurations=sorted({c for _, c, _ in ran}),
                analysed_functions=sorted(fns),
                files=sorted(os.path.relpath(m, a.root) for m in mods),
                known_findings=sorted(findings),
                errors=errors,
            ),
            wall_s=round(time.time() - t0, 3))
        (evd / f'{a.prop}.json').write_text(json.dumps(ev, indent=1) + '\n')
    for k in sorted(findings):
        print(f'KNOWN-FINDING: property={a.prop} {kn[(a.prop, k)]}')
    for k, v in sorted(new.items()):
        print(f'{v["where"]}: {v["construct"]}: [{v["rule"]}] {v["message"]} ({v["config"]})')
        print(f'VIOLATION property={a.prop} replay={report}')
    if new:
        return 1
    for e in errors:
        print(f'no answer: {e}')
    if errors:
        return 3
    print(f'{a.prop}: {total} obligations hold on {sum(cx.npaths for _, _, cx in ran)} paths of {len(fns)} functions ({time.time() - t0:.1f}s)')
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    sys.exit(rc)
