"""Runs the jobs of one property, replays counterexamples, writes the evidence."""
import json
import os
import re
import resource
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from dataclasses import dataclass, field
from pathlib import Path

from . import build

VERIF = build.VERIF
PY = '/opt/venv/bin/python'


@dataclass
class Job:
    kind: str            # cxx | py
    target: str          # harness name | python module
    config: str
    flags: tuple = ()
    budget: float = 60.0


@dataclass
class Plan:
    jobs: list
    encoded: list                       # functions executed symbolically
    bounds: dict
    assumptions: list
    require: list = field(default_factory=list)   # covers that must be reached (vacuity)
    require_labels: list = field(default_factory=list)
    need_core: bool = False
    level_note: str = ''


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _env(core):
    e = dict(os.environ)
    e['TNCO_REPO'] = str(build.REPO)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
        e[k] = '1'
    if core:
        e['TNCO_CORE'] = str(core)
    return e


def run_property(prop, tier, plan, deadline):
    t0 = time.time()
    errors, reports, violations, known_hit = [], [], [], []
    core = None
    bins = {}
    lock = threading.Lock()

    need = {('core',)} if plan.need_core else set()
    for j in plan.jobs:
        if j.kind == 'cxx':
            need.add((j.target, 'sym', tuple(j.flags)))
    ex = ThreadPoolExecutor(8)

    def mk(n):
        try:
            return n, (build.core() if n == ('core',) else build.harness(*n))
        except build.BuildError as x:
            return n, x
    futs = [(n, ex.submit(mk, n)) for n in sorted(need, key=str)]
    for n, f in futs:
        r = f.result()[1]
        if isinstance(r, Exception):
            errors.append(f'build of {n} failed: {str(r)[:1500]}')
        elif n == ('core',):
            core = r
        else:
            bins[n] = r
    if errors:
        return finish(prop, tier, plan, t0, reports, violations, known_hit, errors)
    env = _env(core)
    stop = threading.Event()

    def one(j):
        left = deadline - time.time()
        if left < 3 or stop.is_set():
            return j, None, 'not started: time'
        b = min(j.budget, left)
        if j.kind == 'cxx':
            cmd = [str(bins[(j.target, 'sym', tuple(j.flags))]), 'run', prop, tier, j.config, str(b)]
        else:
            cmd = [PY, '-m', 'pysym', j.target, 'run', prop, tier, j.config, str(b)]
        try:
            p = subprocess.run(cmd, cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                               timeout=b + 90, preexec_fn=_limits)
        except subprocess.TimeoutExpired:
            return j, None, 'timeout'
        out = p.stdout
        if j.kind == 'py':
            i = out.rfind('@@REPORT ')
            out = out[i + 9:] if i >= 0 else ''
        try:
            return j, json.loads(out.strip().splitlines()[-1]), ''
        except Exception:
            return j, None, f'rc={p.returncode} {p.stderr[-800:]}'

    def replay(j, v, k):
        d = VERIF / 'replays'
        d.mkdir(exist_ok=True)
        f = d / f'{prop}-{k}.txt'
        vals = [x if isinstance(x, str) else ' '.join(x) for x in v['vals']]
        head = f'# {prop} {j.kind} {j.target} {" ".join(j.flags)} {j.config}\n# {v["label"]}: {v["detail"]}\n'
        raw = d / f'{prop}-{k}.vals'
        raw.write_text('\n'.join(vals) + '\n')
        if j.kind == 'cxx':
            cmd = [str(build.harness(j.target, 'conc', tuple(j.flags))), 'replay', prop, tier, j.config, str(raw)]
        else:
            cmd = [PY, '-m', 'pysym', j.target, 'replay', prop, tier, j.config, str(raw)]
        try:
            p = subprocess.run(cmd, cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                               timeout=120, preexec_fn=_limits)
            ln = [x for x in p.stdout.splitlines() if 'REPRODUCED' in x]
            res = ln[-1] if ln else f'no answer rc={p.returncode} {p.stderr[-300:]}'
        except subprocess.TimeoutExpired:
            res = 'REPRODUCED hang: replay does not end' if v['label'] == 'hang' else 'no answer: timeout'
        f.write_text(head + '# replay on ordinary values: ' + res + '\n# command: ' + ' '.join(cmd) + '\n' + '\n'.join(vals) + '\n')
        return f, res

    known = load_known(prop)
    nviol = 0
    for f in [ex.submit(one, j) for j in plan.jobs]:
        j, r, err = f.result()
        if r is None:
            if 'not started' in err or err == 'timeout':
                reports.append(dict(config=j.config, target=j.target, not_run=True))
            else:
                errors.append(f'{j.target} {j.config}: {err}')
            continue
        r['target'] = j.target
        reports.append(r)
        for u in (r.get('unsupported') or {}):
            if u.startswith('harness:'):
                errors.append(f'{j.target} {j.config}: {u}')
        for v in r['violations']:
            text = f'{v["label"]} | {v["detail"]} | {j.config}'
            k = next((x for x in known if re.search(x[0], text)), None)
            if k:
                if k not in known_hit:
                    known_hit.append(k)
                continue
            if any(x['label'] == v['label'] for x in violations) and nviol >= 3:
                continue
            path, res = replay(j, v, nviol)
            nviol += 1
            if res.startswith('REPRODUCED'):
                violations.append(dict(label=v['label'], detail=v['detail'], config=j.config, replay=str(path), result=res))
                stop.set()
            else:
                errors.append(f'counterexample not reproduced ({v["label"]}; {v["detail"][:200]}; {j.config}): {res}')
    return finish(prop, tier, plan, t0, reports, violations, known_hit, errors)


def load_known(prop):
    out = []
    f = VERIF / 'known_findings.txt'
    if f.exists():
        for ln in f.read_text().splitlines():
            m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)', ln)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def finish(prop, tier, plan, t0, reports, violations, known_hit, errors):
    ran = [r for r in reports if not r.get('not_run')]
    covers, labels, fns, unsup = {}, {}, set(), {}
    for r in ran:
        for k, n in r.get('covers', {}).items():
            covers[k] = covers.get(k, 0) + n
        for k, n in r.get('labels', {}).items():
            labels[k] = labels.get(k, 0) + n
        fns.update(r.get('functions', []))
        for k, n in (r.get('unsupported') or {}).items():
            unsup[k] = unsup.get(k, 0) + n
    tot = {k: sum(r.get(k, 0) for r in ran) for k in ('paths', 'queries', 'checks', 'trivial', 'decisions', 'unknown')}
    trunc = [f'{r["target"]} {r["config"]}' for r in reports if r.get('not_run') or r.get('truncated')]
    if not violations:
        for c in plan.require:
            if not covers.get(c):
                errors.append(f'vacuous: never reached "{c}"')
        for c in plan.require_labels:
            if not labels.get(c):
                errors.append(f'vacuous: never checked "{c}"')
        if not tot['checks']:
            errors.append('vacuous: nothing was checked')
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='other',
              wall_s=round(time.time() - t0, 2),
              coverage=dict(
                  explanation='symbolic execution of the real code; every assertion on every feasible path decided by an SMT solver (z3) over all values within the bounds',
                  functions_encoded=sorted(set(plan.encoded) | fns),
                  bounds=plan.bounds,
                  queries_discharged=tot['queries'], solver_s=round(sum(r.get('solver_s', 0) for r in ran), 2),
                  paths=tot['paths'], branch_decisions=tot['decisions'], assertions=tot['checks'],
                  assertions_constant_after_simplification=tot['trivial'], solver_unknown=tot['unknown'],
                  configuration_seconds={f'{r["target"]} {r["config"]}': round(r.get('wall_s', 0), 1) for r in ran},
                  configurations=len(ran), incomplete_configurations=trunc,
                  paths_not_followed=unsup, reached=covers, assertion_counts=labels, errors=errors[:20]),
              assumptions=plan.assumptions, violations=len(violations),
              violation_details=violations, known_findings=[d for _, d in known_hit])
    d = VERIF / 'evidence'
    d.mkdir(exist_ok=True)
    (d / f'{prop}.json').write_text(json.dumps(ev, indent=1) + '\n')
    for _, desc in known_hit:
        print(f'KNOWN-FINDING: property={prop} {desc}')
    for v in violations:
        print(f'{v["label"]}: {v["detail"]} [{v["config"]}]')
        print(f'VIOLATION property={prop} replay={v["replay"]}')
    print(f'{prop} {tier}: {tot["paths"]} paths, {tot["checks"]} assertions, {tot["queries"]} queries, {tot["unknown"]} unknown, '
          f'{len(ran)} configurations ({len(trunc)} incomplete), {ev["wall_s"]} s')
    if violations:
        return 1
    if errors:
        for e in errors[:10]:
            print('ERROR', e[:1500], file=sys.stderr)
        return 2
    return 0
