#!/usr/bin/env python3
"""Decides one property:  check.py C03 [--tier quick|thorough] [--seed N] [--replay FILE]

Every component of a property is one of

* model    an exhaustive TLC run of a design-level specification;
* conform  a conformance run: TLC generates behaviours of the specification
           (gen), a worker performs them on the real library and records what
           it observes (worker), TLC validates the recorded traces against the
           specification (trace).  The verdict comes from TLC: each failing
           clause is printed with the id of the property it contradicts.

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
"""
import argparse
import collections
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
PY = os.environ.get('REPO_PYTHON', '/opt/venv/bin/python')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CP = ':'.join([JAR] + glob.glob('/opt/veriftools/tla/*ommunity*.jar'))
SPEC = os.path.join(ROOT, 'spec')
sys.path.insert(0, ROOT)
from components import COMPONENTS, PROPERTIES  # noqa: E402

LIMIT = {'quick': 700, 'thorough': 3000}
# (TLC breaks long lines)
CLAUSE = re.compile(r'<<\s*"CLAUSE",\s*(\d+),\s*(\d+),\s*"(C\d+) ([^"]*)",\s*"([^"]*)"\s*>>')
DONE = re.compile(r'<<\s*"DONE",\s*(\d+),\s*(\d+)\s*>>')
STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


class Infra(Exception):
    pass


def run(cmd, env=None, timeout=600, out=None, cwd=None, grows=None, stall=150):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             GDAL_NUM_THREADS='1')
    e.update(env or {})
    f = open(out, 'wb') if out else subprocess.DEVNULL
    p = subprocess.Popen(cmd, env=e, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, start_new_session=True)
    end, size, since = time.time() + timeout, -1, time.time()
    try:
        while True:
            try:
                return p.wait(1)
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            if grows:
                # a program that does not end
                n = os.path.getsize(grows) if os.path.exists(grows) else 0
                if n != size:
                    size, since = n, now
            if now > end or (grows and now - since > stall):
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return -9
    finally:
        if out:
            f.close()


def tlc(spec, cfg, work, name, args=(), env=None, timeout=600, mem='2g', workers=1):
    md = os.path.join(work, 'md_' + name)
    out = os.path.join(work, name + '.out')
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4',
           '-Xmx' + mem, '-Xss32m', '-Djava.io.tmpdir=' + work, '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', md,
           '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg), *args, os.path.join(SPEC, spec)]
    rc = run(cmd, env=env, timeout=timeout, out=out, cwd=work)
    shutil.rmtree(md, ignore_errors=True)
    return rc, out


def read(path):
    with open(path, errors='replace') as f:
        return f.read()


def parse_states(txt):
    m = STATES.findall(txt)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def generate(comp, par, n, seed, work, name):
    """Behaviours of the specification, as lines of JSON"""
    if 'pygen' in comp:
        prog = os.path.join(work, name + '.jsonl')
        return prog
    env = dict(comp.get('env', {}))
    env.update(par)
    for attempt in range(2):
        rc, out = tlc(comp['gen'], comp.get('gencfg', comp['gen'].replace('.tla', '.cfg')), work, name + '_gen',
                      args=['-simulate', f'num={n}', '-depth', str(comp.get('depth', 20)), '-seed', str(seed)]
                      if comp.get('simulate', True) else ['-seed', str(seed)],
                      env=env, timeout=1200)
        prog = os.path.join(work, name + '.jsonl')
        k = 0
        with open(out, errors='replace') as f, open(prog, 'w') as g:
            for line in f:
                if line.startswith('"PROGRAM '):
                    try:
                        s = json.loads(line)
                    except ValueError:
                        continue
                    k += 1
                    g.write(json.dumps({'id': k, 'prog': json.loads(s[len('PROGRAM '):])}) + '\n')
        if k:
            return prog, k, parse_states(read(out))
    raise Infra(f'no behaviour generated by {comp["gen"]}: ' + read(out)[-600:])


def observe(comp, prog, work, name, seed, tier):
    tr = os.path.join(work, name + '.ndjson')
    sc = os.path.join(work, 'sc_' + name)
    os.makedirs(sc, exist_ok=True)
    log = os.path.join(work, name + '_worker.log')
    rc = run([PY, os.path.join(ROOT, 'harness', comp['worker']), prog, tr, sc, str(comp.get('limit', 60))],
             env={'REPO': REPO, 'VERIF_SEED': str(seed), 'VERIF_TIER': tier, 'HOME': sc, 'XDG_CACHE_HOME': sc,
                  'TMPDIR': sc}, timeout=LIMIT[tier], out=log, grows=tr)
    shutil.rmtree(sc, ignore_errors=True)
    return tr, rc, read(log)[-2000:]


def shard(comp, par, n, seed, work, name, tier, progfile=None):
    res = {'viol': [], 'done': 0, 'states': 0, 'trans': 0, 'progs': [], 'gen': 0, 'ops': collections.Counter(),
           'steps': 0}
    if progfile:
        prog, k = progfile, sum(1 for _ in open(progfile))
    else:
        prog, k, _ = generate(comp, par, n, seed, work, name)
    lines = [json.loads(x) for x in open(prog)]
    res['gen'] = k
    tr, rc, log = observe(comp, prog, work, name, seed, tier)
    got = sum(1 for _ in open(tr)) if os.path.exists(tr) else 0
    if rc != 0 or got < k:
        # the library took the process down, or the worker could not start: once more
        tr, rc, log = observe(comp, prog, work, name, seed, tier)
        got = sum(1 for _ in open(tr)) if os.path.exists(tr) else 0
        if rc != 0 or got < k:
            res['viol'].append({'prop': '*', 'clause': 'library-does-not-survive-the-behaviour', 'id': got + 1,
                                'step': 0, 'op': '', 'detail': log})
            if got == 0:
                res['progs'] = lines
                return res
            # a truncated last line would not parse
            good = []
            for x in open(tr):
                try:
                    json.loads(x)
                    good.append(x)
                except ValueError:
                    break
            with open(tr, 'w') as f:
                f.writelines(good)
            got = len(good)
    steps = {}
    with open(tr) as f:
        for x in f:
            t = json.loads(x)
            steps[t['id']] = len(t['ev'])
            for ev in t['ev']:
                res['ops'][ev['e'].get('op', '')] += 1
    res['steps'] = sum(steps.values())
    done, clauses = set(), set()
    for attempt in range(2):
        rc, out = tlc(comp['trace'], comp.get('tracecfg', comp['trace'].replace('.tla', '.cfg')), work, name + '_tv',
                      env={'TRACE_FILE': tr, 'DETAIL': '0', **par}, timeout=LIMIT[tier], mem='3g')
        txt = read(out)
        done = {int(a) for a, b in DONE.findall(txt)}
        clauses = set(CLAUSE.findall(txt))
        if len(CLAUSE.findall(txt)) != txt.count('"CLAUSE"'):
            raise Infra('unreadable verdict of ' + comp['trace'])
        if len(done) >= got:
            break
    g, d = parse_states(txt)
    res['trans'], res['states'] = g, d
    res['done'] = len(done)
    for i, st, prop, cl, op in sorted(clauses, key=lambda c: (int(c[0]), int(c[1]), c[2:])):
        res['viol'].append({'prop': prop, 'clause': cl, 'id': int(i), 'step': int(st), 'op': op})
    if len(done) < got:
        # the trace specification has no verdict on some trace: an observation outside
        # everything it can describe
        bad = sorted(set(steps) - done)
        err = re.findall(r'Error:.*(?:\n.*){0,4}', txt)
        if 'semantic analysis failed' in txt or (not err and rc != 0 and g == 0):
            raise Infra('TLC: ' + txt[-800:])
        res['viol'].append({'prop': '*', 'clause': 'observation-outside-the-specification', 'id': bad[0], 'step': 0,
                            'op': '', 'detail': '\n'.join(err)[:1500]})
    res['progs'] = lines
    res['trace'] = tr
    return res


def known():
    out = []
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(C\d+) key="([^"]*)" (.*)', line)
            if m:
                out.append(m.groups())
    return out


def key_of(comp, prog, v):
    """Identifies the specific failing input, for the known-findings file"""
    if comp.get('key') == 'step' and v['step']:
        return f"{v['clause']}|" + json.dumps(prog[v['step'] - 1], sort_keys=True)
    return f"{v['clause']}|" + json.dumps(prog, sort_keys=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif_')
    try:
        rc = decide(a, tier, work, t0)
    except Infra as ex:
        print('ERROR', ex)
        rc = 2
    finally:
        if a.keep:
            print('work', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(a, tier, work, t0):
    prop = a.prop
    jobs, models = [], []
    if a.replay:
        r = json.load(open(a.replay))
        pf = os.path.join(work, 'replay.jsonl')
        with open(pf, 'w') as f:
            f.write(json.dumps({'id': r['id'], 'prog': r['prog']}) + '\n')
        jobs.append((r['component'], r['par'], 1, r['seed'], 'replay', pf))
    else:
        for item in PROPERTIES[prop]:
            comp = COMPONENTS[item['comp']]
            if comp['kind'] == 'model':
                models.append((item['comp'], item))
                continue
            n = item['quick'] if tier == 'quick' else item.get('thorough', item['quick'] * 12)
            if n == 0:
                continue
            n = max(1, int(n * a.scale))
            sh = min(item.get('shards', 4), max(1, n // item.get('min', 20)))
            if tier == 'thorough':
                sh = max(sh, min(64, n // 600))
            for s in range(sh):
                jobs.append((item['comp'], item.get('par', {}), -(-n // sh), a.seed * 1000 + s,
                             f'{item["comp"]}_{"_".join(item.get("par", {}).values())}_{s}', None))
    # long jobs first
    jobs.sort(key=lambda j: -j[2])
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'behaviours_generated': 0,
           'steps_validated': 0, 'model_states': 0, 'operations': collections.Counter(), 'samples': [],
           'components': []}
    viols = []
    seen = set()
    with cf.ThreadPoolExecutor(8) as ex:
        fm = {}
        for name, item in models:
            comp = COMPONENTS[name]
            cfg = comp['thorough_cfg'] if tier == 'thorough' and 'thorough_cfg' in comp else comp['cfg']
            fm[ex.submit(tlc, comp['spec'], cfg, work, 'model_' + name, comp.get('args', []),
                         item.get('tpar', item.get('par')) if tier == 'thorough' else item.get('par'),
                         3000 if tier == 'thorough' else 600, '6g', 2 if tier == 'quick' else 8)] = name
        fs = {ex.submit(shard, COMPONENTS[c], par, n, seed, work, nm, tier, pf): (c, par, seed)
              for c, par, n, seed, nm, pf in jobs}
        for f in fs:
            c, par, seed = fs[f]
            res = f.result()
            comp = COMPONENTS[c]
            cov['states'] += res['states']
            cov['transitions'] += res['trans']
            cov['traces_validated_against_impl'] += res['done']
            cov['behaviours_generated'] += res['gen']
            cov['steps_validated'] += res['steps']
            cov['operations'].update(res['ops'])
            byid = {p['id']: p['prog'] for p in res['progs']}
            seen.update(json.dumps(p) for p in byid.values())
            cov['components'].append({'component': c, 'parameters': par, 'seed': seed, 'behaviours': res['gen'],
                                      'validated': res['done'], 'other_clauses': sorted(
                                          {v['prop'] + ' ' + v['clause'] for v in res['viol'] if v['prop'] not in (prop, '*')})})
            if len(cov['samples']) < 3 and byid:
                i = sorted(byid)[len(byid) // 2]
                cov['samples'].append({'component': c, 'parameters': par, 'behaviour': byid[i]})
            for v in res['viol']:
                if v['prop'] in (prop, '*'):
                    v.update(component=c, par=par, seed=seed, prog=byid.get(v['id'], []))
                    v['key'] = key_of(comp, v['prog'], v)
                    viols.append(v)
        for f in fm:
            rc, out = f.result()
            txt = read(out)
            g, d = parse_states(txt)
            if 'Model checking completed. No error has been found' not in txt:
                raise Infra(f'model {fm[f]}: ' + txt[-1500:])
            cov['states'] += d
            cov['transitions'] += g
            cov['model_states'] += d
            cov['components'].append({'component': fm[f], 'kind': 'exhaustive model check', 'distinct_states': d,
                                      'transitions': g})
    cov['distinct_behaviours'] = len(seen)
    cov['operations'] = dict(cov['operations'])
    kn = known()
    new, said = [], set()
    for v in viols:
        # recorded by the failing input, or by the clause of the specification that describes
        # the failing call, its inputs and its wrong outcome (named K...)
        hit = [k for k in kn if k[0] == prop and v['prop'] == prop and
               (k[1] == v['key'].replace('"', "'") or (v['clause'][:1] == 'K' and k[1] == v['clause']))]
        if not hit:
            new.append(v)
        elif hit[0] not in said:
            said.add(hit[0])
            print(f'KNOWN-FINDING: property={prop} {hit[0][2].strip()}')
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    if not a.replay:
        ev = {'property': prop, 'tier': tier, 'seed': a.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': ['the worker reports what the public interface returned',
                              'the margins and tolerances written in the specification'],
              'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
        tmp = os.path.join(ROOT, 'evidence', f'.{prop}.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, 'evidence', prop + '.json'))
    print(f'{prop}: {cov["traces_validated_against_impl"]} traces, {cov["steps_validated"]} steps validated, '
          f'{cov["states"]} states, {len(new)} violations, {time.time() - t0:.1f}s')
    if new:
        new.sort(key=lambda v: (v['prop'] == '*', len(v['prog'])))
        cnt = collections.Counter(v['clause'] for v in new)
        for c, n in cnt.most_common(8):
            print(f'  {n} x {c}')
        v = new[0]
        path = a.replay or os.path.join(ROOT, 'evidence', 'replay', f'{prop}.json')
        if not a.replay:
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
        print(f'  first: {v["clause"]} at step {v["step"]} ({v["op"]}) of {json.dumps(v["prog"])[:1500]}')
        if v.get('detail'):
            print('  ' + v['detail'].replace('\n', '\n  '))
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0


if __name__ == '__main__':
    main()
