#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import specs

VERIF = build.VERIF
MODS = ['std', 'logic', 'math', 'io', 'sys', 'unix', 'iterators', 'manips', 'extra', 'vleak', 'asixteenletmodul']
TOTAL = {'quick': 700, 'thorough': 3000}


def engine_cmd(eng, d, bc, job, out, extra=()):
    cmd = [eng, '-o', out, '-t', str(job['t']), '-m', str(job.get('mem', 3500)), '-q', str(job.get('q', 60000))]
    if 'entry' in job:
        cmd += ['-e', job['entry']]
    if 'i' in job:
        cmd += ['-i', str(job['i'])]
    for a in job.get('args', []):
        cmd += ['-a', str(a)]
    cmd += list(extra) + [bc]
    for m in MODS:
        p = '%s/%s.bc' % (d, m)
        if os.path.exists(p):
            cmd.append('%s=%s' % (m, p))
    return cmd


def run_engine(cmd, out, limit):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return {'error': 'engine exceeded %d s' % limit}
    if p.returncode not in (0, 1, 2):
        return {'error': 'engine exit %d: %s' % (p.returncode, p.stdout[-600:])}
    try:
        return json.load(open(out))
    except Exception as e:
        return {'error': 'no result: %s' % e}


def native_run(binary, replay, args, limit=60):
    """-> (status, text): ok, assert, sanitizer, signal, hang, other"""
    scratch = os.path.join(build.BUILD, 'scratch-%d' % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    env = {'PATH': '/usr/bin:/bin', 'HOME': scratch, 'PWD': scratch}
    try:
        p = subprocess.run(['bash', '-c', 'ulimit -c 0; exec "$0" "$@"', binary, replay] + [str(a) for a in args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=limit, cwd=scratch, env=env)
    except subprocess.TimeoutExpired:
        return 'hang', 'no end within %d s' % limit
    text = p.stdout.decode('utf-8', 'replace')[-2500:]
    if p.returncode == 0:
        return 'ok', text
    if p.returncode == 99:
        return 'assert', text
    if p.returncode == 96:
        return 'sanitizer', text
    if p.returncode == 97:
        return 'assumption', text
    if p.returncode < 0 or p.returncode >= 128:
        return 'signal', 'signal %d\n%s' % (-p.returncode if p.returncode < 0 else p.returncode - 128, text)
    return 'other', 'exit %d\n%s' % (p.returncode, text)


# kinds that the engine tracks per byte and a native run cannot always observe
UNOBSERVABLE = ('uninit', 'slab', 'pointer', 'memory', 'heap', 'free')


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = specs.SPECS[pid]
    t0 = time.time()
    ev = os.path.join(VERIF, 'evidence')
    rp = os.path.join(ev, 'replay')
    os.makedirs(rp, exist_ok=True)
    for f in os.listdir(rp):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(rp, f))
    try:
        eng = build.engine()
        d = build.tree(spec.get('transpiled', False), spec.get('transpiler', False))
        jobs = [j for j in spec['jobs'] if tier == 'thorough' or j.get('tier', 'quick') == 'quick']
        jobs = [j for j in jobs if not (tier == 'thorough' and j.get('tier') == 'quick-only')]
        names = sorted(set(j['h'] for j in jobs))
        with ThreadPoolExecutor(4) as ex:
            bcs = dict(zip(names, ex.map(lambda n: build.harness(n, d, cli=n.startswith('h_cli')), names)))
    except build.BuildError as e:
        if spec.get('transpiler') and str(e).startswith('transpile:'):
            path = os.path.join(rp, pid + '-1.txt')
            with open(path, 'w') as f:
                f.write('# property %s\n# the transpiler makes no module that compiles from share/mnml/iterators.l, share/mnml/manips.l or harness/extra.l\n%s\n' % (pid, e))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        print('BUILD-FAILED', str(e)[-3000:])
        return 3
    outd = os.path.join(build.BUILD, 'run-%s-%d' % (pid, os.getpid()))
    os.makedirs(outd, exist_ok=True)
    deadline = t0 + TOTAL[tier]

    def go(ij):
        i, j = ij
        j = dict(j)
        j['t'] = j.get('t', 300)
        if tier == 'thorough' and 'tt' in j:
            j['t'] = j['tt']
        left = deadline - time.time()
        if left < 15:
            return {'error': 'not started: no time left'}
        j['t'] = min(j['t'], int(left))
        out = '%s/%d.json' % (outd, i)
        r = run_engine(engine_cmd(eng, d, bcs[j['h']], j, out), out, j['t'] + 90)
        return r
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('w', 1))
    with ThreadPoolExecutor(spec.get('par', 8)) as ex:
        got = list(ex.map(go, [(i, jobs[i]) for i in order]))
    res = [None] * len(jobs)
    for i, r in zip(order, got):
        res[i] = r

    known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k['property'] == pid]
    seen_known, viols, unconfirmed, errors = {}, [], [], []
    natives = {}

    def native(h):
        if h not in natives:
            try:
                natives[h] = build.native(h, d, cli=h.startswith('h_cli'), transpiled=spec.get('transpiled', False))
            except build.BuildError as e:
                natives[h] = None
                errors.append('native build: ' + str(e)[-400:])
        return natives[h]

    n = 0
    for j, r in zip(jobs, res):
        if 'error' in r:
            errors.append('%s %s: %s' % (j['h'], j.get('args', []), r['error']))
            continue
        if j.get('reach') is not None or True:
            for tag in j.get('reach', ['end']):
                if tag not in r['reach'] and not r['violations'] and r['complete']:
                    errors.append('%s %s: no path reaches "%s"' % (j['h'], j.get('args', []), tag))
        for v in r['violations']:
            k = next((k for k in known if k['harness'] == j['h'] and k.get('args', j.get('args', [])) == j.get('args', []) and re.fullmatch(k['key'], v['key'])), None)
            n += 1
            path = os.path.join(rp, '%s-%d.txt' % (pid, n))
            with open(path, 'w') as f:
                f.write('# property %s\n# harness %s args %s\n# %s: %s\n# at %s\n' % (pid, j['h'], j.get('args', []), v['kind'], v['msg'].replace('\n', ' '), v['where']))
                for s in v['stack']:
                    f.write('#   %s\n' % s)
                for a, b in v['inputs']:
                    f.write('%s %s\n' % (a.replace(' ', '_'), b))
            if len(viols) >= 6:
                continue
            b = native(j['h'])
            st, text = ('none', '') if b is None else native_run(b, path, j.get('args', []), 60)
            ok = st in ('assert', 'sanitizer', 'signal', 'hang') or (st == 'other')
            how = 'native replay: ' + st
            if not ok and v['kind'].startswith(UNOBSERVABLE):
                out = '%s/replay%d.json' % (outd, n)
                rr = run_engine(engine_cmd(eng, d, bcs[j['h']], dict(j, t=120), out, ['-r', path]), out, 200)
                ok = 'error' not in rr and any(x['kind'] == v['kind'] for x in rr['violations'])
                how = 'concrete replay in the executor (%s natively)' % st
            with open(path, 'a') as f:
                f.write('# %s\n' % how)
                for line in text.splitlines():
                    f.write('#| %s\n' % line)
            if not ok:
                unconfirmed.append({'key': v['key'], 'native': st, 'replay': path})
                print('UNCONFIRMED property=%s %s (native: %s) replay=%s' % (pid, v['key'], st, path))
                continue
            if k is not None:
                seen_known[k['what']] = True
            else:
                viols.append({'key': v['key'], 'msg': v['msg'], 'where': v['where'], 'harness': j['h'], 'args': j.get('args', []), 'how': how, 'replay': path})

    # witnesses of passing paths, replayed on the natively built real code
    validated, mismatches, samples = 0, [], []
    per = 2 if tier == 'quick' else 6
    for j, r in zip(jobs, res):
        if 'error' in r:
            continue
        for s in r.get('samples', [])[:per]:
            if len(samples) < 12:
                samples.append({'harness': j['h'], 'args': j.get('args', []), 'inputs': ' '.join('%s=%s' % (a, b) for a, b in s['inputs'])[:600]})
            if time.time() > deadline + 60 or viols or validated >= (48 if tier == 'quick' else 400) or j.get('nonative'):
                continue
            b = native(j['h'])
            if b is None:
                break
            path = os.path.join(outd, 'w.txt')
            with open(path, 'w') as f:
                for a, c in s['inputs']:
                    f.write('%s %s\n' % (a.replace(' ', '_'), c))
            st, text = native_run(b, path, j.get('args', []), 60)
            if st == 'ok':
                validated += 1
            else:
                mismatches.append({'harness': j['h'], 'args': j.get('args', []), 'status': st, 'text': text[-400:], 'inputs': s['inputs'][:40]})
    for k in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    funcs = {}
    reach, unm = {}, {}
    tot = dict.fromkeys(['paths', 'killed', 'forks', 'instructions', 'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'asserts', 'asserts_folded', 'assert_queries', 'cert_rewrites', 'cert_tables', 'cert_queries', 'cert_left', 'cert_s'], 0)
    mx, complete = 0, not errors
    jl = []
    for j, r in zip(jobs, res):
        row = {'harness': j['h'], 'args': j.get('args', []), 'bounds': j.get('b', '')}
        if 'error' in r:
            row['error'] = r['error']
            complete = False
        else:
            for k in tot:
                tot[k] += r[k]
            mx = max(mx, r['max_query_s'])
            complete = complete and r['complete']
            for f, c in r['functions'].items():
                o = funcs.setdefault(f, [0, 0, c[2]])
                o[0] += c[0]
                o[1] = max(o[1], c[1])
            for k, c in r['reach'].items():
                reach[k] = reach.get(k, 0) + c
            for k, c in r['unmodelled'].items():
                unm[k] = unm.get(k, 0) + c
            row.update({k: r[k] for k in ('paths', 'queries', 'solver_s', 'complete', 'why', 'wall_s', 'rss_mb')})
        jl.append(row)
    own = lambda f: not f.startswith(('msym_', 'env_', '__wrap_', 'harness', 'boot', 'mk_', 'any_', 'sym_', 'str', 'mem'))
    cov = {
        'states': int(tot['paths'] + tot['killed']), 'transitions': int(tot['instructions']), 'traces_validated_against_impl': validated, 'samples': samples or ['none'],
        'states_means': 'symbolic paths decided; each covers every value of its symbolic inputs', 'transitions_means': 'LLVM instructions executed symbolically',
        'all_paths_within_bounds_decided': bool(complete), 'bounds': spec['bounds'], 'outside_bounds': spec.get('outside', ''),
        'queries': {k: tot[k] for k in ('queries', 'sat', 'unsat', 'unknown')}, 'solver_s': round(tot['solver_s'], 3), 'max_query_s': round(mx, 3),
        'assertions': {'evaluated': tot['asserts'], 'discharged_by_solver_query': tot['assert_queries'], 'discharged_by_rewriting': tot['asserts_folded']},
        'simplifications_confirmed_by_solver': {'term_rewrites': tot['cert_rewrites'], 'byte_tables': tot['cert_tables'], 'queries_unsat': tot['cert_queries'], 'not_confirmed': tot['cert_left'], 'solver_s': round(tot['cert_s'], 3)},
        'functions_encoded': {f: {'calls': c[0], 'blocks_covered': c[1], 'blocks': c[2]} for f, c in sorted(funcs.items()) if own(f)},
        'reached': reach, 'unmodelled_calls': unm, 'jobs': jl, 'errors': errors, 'unconfirmed': unconfirmed, 'witness_mismatches': mismatches,
        'known_findings_seen': sorted(seen_known),
    }
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': cov,
               'assumptions': specs.ASSUMPTIONS + spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': viols},
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    shutil.rmtree(outd, ignore_errors=True)
    shutil.rmtree(os.path.join(build.BUILD, 'scratch-%d' % os.getpid()), ignore_errors=True)
    print('%s %s: %d jobs, %d paths, %d queries (%.1f s solver), %d assertions, %d witnesses replayed, complete=%s, %.1f s' % (
        pid, tier, len(jobs), cov['states'], tot['queries'] + tot['cert_queries'], tot['solver_s'] + tot['cert_s'], tot['asserts'], validated, complete, time.time() - t0))
    for e in errors:
        print('NOTE', e)
    for m in mismatches[:5]:
        print('WITNESS-MISMATCH', m['harness'], m['args'], m['status'], m['text'][-200:].replace('\n', ' | '))
    for v in viols:
        print('  %s [%s %s] %s' % (v['key'], v['harness'], v['args'], v['how']))
        print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
    if viols:
        return 1
    return 2 if errors and not any('error' not in r for r in res) else 0


if __name__ == '__main__':
    sys.exit(main())
