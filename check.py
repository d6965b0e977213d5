#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]   decide one property by symbolic execution of the code in /repo
   check.py --replay <file>               run a recorded counterexample natively against /repo

Exit 0: held within the stated bounds; 1: violated (with a VIOLATION line); 2: no verdict.
"""
import collections, glob, json, multiprocessing as mp, os, queue, subprocess, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V, os.path.join(V, 'irsym')]
import ir, eng, z3, jobs as JOBS

T = 'x86_64-unknown-linux-gnu/release'
WORKERS = 8


def build(kind, feature=''):
    t0 = time.time()
    r = subprocess.run(['bash', V + '/irsym/build.sh', kind] + ([feature] if feature else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
        print('ERROR: %s build of /repo with the harnesses failed' % kind)
        sys.exit(2)
    return time.time() - t0


def load(feature, kind='ir'):
    m = ir.Module()
    d = '%s/target/%s%s/%s/deps/' % (V, kind, '-' + feature if feature else '', T)
    for i, f in enumerate(sorted(glob.glob(d + '*.ll'))):
        m.load(f, 'm%d.' % i)
    return m


def native(feature, h, data, timeout=20):
    """(verdict, output) of running the harness natively on these bytes"""
    exe = '%s/target/native%s/%s/replay' % (V, '-' + feature if feature else '', T)
    try:
        r = subprocess.run([exe, h, data.hex()], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'hang', ''
    out = r.stdout.decode(errors='replace')
    return {0: 'ok', 1: 'failed', 3: 'assumption', 4: 'missing'}.get(r.returncode, 'panic'), out


CROSS = 0     # how many unsatisfiable answers per job are put to a second solver


class Timeout(Exception):
    pass


def decide(e, forms, deadline):
    """a model of the disjunction of the formulas, or None"""
    if not forms:
        return None
    left = deadline - time.time()
    if left <= 1:
        raise Timeout('out of time')
    e.timeout = int(1000 * (left if len(forms) == 1 else max(left / 3, min(left, 20))))
    try:
        f = eng.b_ors(forms)
        if f is False:
            return None
        m = e.check(f, True)
        return None if m is False else m
    except eng.EngErr as x:
        if len(forms) == 1 or not str(x).startswith('solver'):
            raise
    h = len(forms) // 2
    m = decide(e, forms[:h], deadline)
    return m if m is not None else decide(e, forms[h:], deadline)


def run_job(a):
    """one symbolic execution of one harness; returns a result record"""
    job, hi, kinds, budget, seed, alt = a
    h, lo, pin, feature = job['h'], job['lo'], job['pin'], job['feature']
    t0 = time.time()
    z3.set_param('smt.random_seed', seed)
    z3.set_param('sat.random_seed', seed)
    m = load(feature, alt)
    e = eng.Engine(m, loop_max=max(300, hi))
    e.deadline = t0 + budget
    e.timeout = int(budget * 1000)
    e.cross['left'] = CROSS
    r = dict(h=h, lo=lo, hi=hi, pin={str(k): v for k, v in pin.items()}, feature=feature, label=job['label'], ir=alt, status='?')
    try:
        try:
            e.harness(h, hi, lo, hi, {k: v for k, v in pin.items()})
        except eng.UndefErr as x:
            raise eng.EngErr('undef: %s' % x)
        obl = [o for o in e.obl if kinds is None or o[0] in kinds]
        r['encode_s'] = round(time.time() - t0, 2)
        mod = decide(e, [o[2] for o in obl], e.deadline)
        if mod is not None:
            data = e.model_input(mod)
            bad = [o for o in obl if z3.is_true(mod.eval(eng.zb(o[2]), model_completion=True))]
            r.update(status='cex', input=data.hex(), kinds=sorted({o[0] for o in bad}), failed=['%s %s: %s' % (o[0], o[1], o[3]) for o in bad][:10])
        else:
            r['status'] = 'ok'
            # the harness reaches the situations it is about, and there the engine and the native code agree
            r['covers'], r['traces'], r['unreached'], r['mismatch'] = 0, [], [], []
            for k, c in sorted(e.covers.items()):
                r['covers'] += 1
                if any(k in t['covers'] for t in r['traces']):
                    continue
                e.timeout = int(1000 * max(20, e.deadline - time.time()))
                mm = e.check(c, True)
                if mm is False:
                    r['unreached'].append(k)
                    continue
                data = e.model_input(mm)
                want = sorted(q for q, d in e.covers.items() if z3.is_true(mm.eval(eng.zb(d), model_completion=True)))
                v, out = native(feature, h, data)
                got = sorted({int(l.split()[1]) for l in out.splitlines() if l.startswith('COVER ')})
                r['traces'].append(dict(input=data.hex(), covers=want))
                if v != 'ok' or got != want:
                    r['mismatch'].append('%s: native %s covers %s, engine covers %s' % (data.hex()[:200], v, got, want))
            if r['mismatch']:
                r.update(status='error', why='engine and native code disagree: ' + r['mismatch'][0])
    except (eng.EngErr, Timeout, z3.Z3Exception, RecursionError, MemoryError, KeyError, IndexError, TypeError, AttributeError, AssertionError, NotImplementedError) as x:
        slow = isinstance(x, Timeout) or 'timeout' in str(x) or 'out of time' in str(x) or 'canceled' in str(x) or 'deadline' in str(x)
        r.update(status='timeout' if slow else 'error', why='%s: %s' % (type(x).__name__, str(x)[:300]))
        if not slow and not isinstance(x, eng.EngErr):
            r['why'] += ' ' + traceback.format_exc(limit=-2)[-400:].replace('\n', ' ')
    r.update(wall_s=round(time.time() - t0, 2), solver_s=round(e.solver_time, 2), queries=e.queries, blocks=e.blocks_run, steps=e.steps,
             cross=e.cross, obligations=e.asserted, to_solver=len(e.obl), functions=sorted(e.funcs_used))
    return r


def child(out, n, a):
    try:
        r = run_job(a)
    except BaseException as x:
        r = dict(h=a[0]['h'], lo=a[0]['lo'], hi=a[1], status='error', why='%s: %s' % (type(x).__name__, x))
    out.put((n, json.dumps(r)))


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(n.split('.', 1)[1] if n.startswith('m') and '._' in n else n for n in names), stdout=subprocess.PIPE, text=True)
        return r.stdout.split('\n')
    except OSError:
        return names


def main():
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        build('native', d['feature'])
        v, out = native(d['feature'], d['harness'], bytes.fromhex(d['input']))
        print(out, end='')
        print('native verdict:', v)
        sys.exit(0 if v == 'ok' else 1)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    global CROSS
    CROSS = 100 if thorough else 0
    jobs, kinds = JOBS.PROPS[prop]
    jobs = [j for j in jobs if thorough or not j['deep']]
    t0 = time.time()
    features = sorted({j['feature'] for j in jobs})
    for f in features:
        build('ir', f)
        build('native', f)
    built = time.time() - t0
    total = 6 * 3600 if thorough else 780
    one = 3000 if thorough else 300
    end = t0 + total

    known = []
    try:
        known = [l.strip() for l in open(V + '/KNOWN_FINDINGS.txt') if l.startswith('finding: ')]
    except OSError:
        pass
    ctx = mp.get_context('fork')
    out = ctx.Queue()
    todo = collections.deque()
    for j in sorted(jobs, key=lambda j: -j['cost']):
        hi = j['t'] if thorough else j['hi']
        todo.append((j, [hi] + [x for x in j['down'] if x < hi], 'ir'))
    running, results, n = {}, [], 0
    altbuilt, gone = set(), {}

    def start():
        nonlocal n
        while todo and len(running) < WORKERS:
            j, his, alt = todo.popleft()
            b = min(one, max(10, end - time.time() - 30))
            if not thorough and len(his) > 1:
                # a smaller bound is left to try: keep time for it
                b = min(b, 60 if j['cost'] <= 2 else 150 if j['cost'] <= 25 else 240)
            n += 1
            p = ctx.Process(target=child, args=(out, n, (j, his[0], kinds, b, seed, alt)), daemon=True)
            p.start()
            running[n] = (p, j, his, alt, time.time() + b + 60 + 15 * CROSS)

    while todo or running:
        start()
        try:
            k, r = out.get(timeout=1)
            r = json.loads(r)
        except queue.Empty:
            k = None
            for i, (p, j, his, alt, dl) in list(running.items()):
                if time.time() > dl:
                    p.kill()
                    k, r = i, dict(h=j['h'], lo=j['lo'], hi=his[0], status='timeout', why='killed')
                elif not p.is_alive():
                    if i not in gone:
                        gone[i] = time.time()     # its result may still be on the way
                    elif time.time() > gone[i] + 5:
                        k, r = i, dict(h=j['h'], lo=j['lo'], hi=his[0], status='error', why='worker ended (exit %s)' % p.exitcode)
            if k is None:
                continue
        if k not in running:
            continue
        p, j, his, alt, dl = running.pop(k)
        p.join(5)
        print('%-9s %s %s %s..%s %s%s %.1fs %s' % (r['status'], j['h'], j['label'], j['lo'], his[0], j['feature'], '' if alt == 'ir' else ' ' + alt, r.get('wall_s', 0),
                                                  r.get('why', '')), flush=True)
        if r['status'] in ('timeout', 'error') and len(his) > 1:
            todo.appendleft((j, his[1:], alt))
            continue
        if r['status'] in ('timeout', 'error') and alt == 'ir' and end - time.time() > 120:
            # another compilation of the same source: other optimisations, other shape of the code
            if j['feature'] not in altbuilt:
                build('ir2', j['feature'])
                altbuilt.add(j['feature'])
            hi = j['t'] if thorough else j['hi']
            todo.append((j, [hi] + [x for x in j['down'] if x < hi], 'ir2'))
            continue
        results.append((j, r))
        if r['status'] == 'cex':
            v, _ = native(r['feature'], r['h'], bytes.fromhex(r['input']))
            if v in ('panic', 'hang') or v == 'failed' and kinds is None:
                # decided: what has not been run yet would not change the verdict; a known finding does not stop the rest
                if not any('property=%s harness=%s input=%s' % (prop, r['h'], r['input']) in l for l in known):
                    for p, *_ in running.values():
                        p.kill()
                    todo.clear()
                    running.clear()

    # ---- verdict
    violations, errors, undecided = [], [], []
    done = {(r['h'], r['feature']) for j, r in results if r['status'] == 'ok'}
    for j, r in results:
        if r['status'] == 'cex':
            data = bytes.fromhex(r['input'])
            v, o = native(r['feature'], r['h'], data)
            hit = {'failed': 'check' in r['kinds'], 'panic': True, 'hang': True}.get(v, False)
            if kinds is not None and v == 'failed':
                hit = False
            if hit:
                violations.append((j, r, v, o))
            else:
                errors.append('%s: counterexample %s of the encoding (%s) does not reproduce natively: %s' % (r['h'], r['input'], r['failed'][:2], v))
        elif j['label'] and (r['status'] == 'timeout' or 'time budget' in r.get('why', '')) and (r['h'], j['feature']) in done:
            # time was too short for one of the larger or special cases; what was decided stands, and the evidence says what was not
            undecided.append('%s %s %s..%s: %s' % (r['h'], j['label'], r.get('lo'), r.get('hi'), r.get('why', '')))
        elif r['status'] != 'ok':
            errors.append('%s %s..%s: %s %s' % (r['h'], r.get('lo'), r.get('hi'), r['status'], r.get('why', '')))
        else:
            if r['unreached']:
                errors.append('%s: situation(s) at line(s) %s can not occur: the check would be vacuous' % (r['h'], r['unreached'])) if not (j['label'] or r['hi'] != (j['t'] if thorough else j['hi']) or j['feature']) else None
    os.makedirs(V + '/replays', exist_ok=True)
    reported = 0
    for j, r, v, o in violations:
        key = 'property=%s harness=%s input=%s' % (prop, r['h'], r['input'])
        if any(key in l for l in known):
            print('KNOWN-FINDING: property=%s %s on %s' % (prop, r['h'], r['input']))
            continue
        path = '%s/replays/%s-%s%s.json' % (V, prop, r['h'], '-' + r['feature'] if r['feature'] else '')
        json.dump(dict(property=prop, harness=r['h'], feature=r['feature'], input=r['input'], failed=r['failed'], native=v, output=o[-3000:],
                       rerun='python3-vt /verif/check.py --replay ' + path), open(path, 'w'), indent=1)
        for l in o.splitlines():
            if l.startswith('CHECK-FAILED') or 'panicked' in l:
                print('  ' + l[:400])
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        reported += 1

    ok = [r for j, r in results if r['status'] == 'ok']
    fn = sorted({f for r in ok for f in r['functions']})
    dm = demangle(fn)
    mine = sorted({d for f, d in zip(fn, dm) if 'pcics' in f})
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=reported,
        coverage=dict(
            states=sum(r['blocks'] for r in ok), transitions=sum(r['steps'] for r in ok),
            traces_validated_against_impl=sum(len(r['traces']) for r in ok),
            samples=[dict(harness=r['h'], input=t['input'][:400], situations=t['covers']) for r in ok for t in r['traces'][:1]][:12],
            explanation='states: basic blocks of the LLVM IR of /repo and harness executed on symbolic input (merged paths); transitions: IR instructions executed symbolically; '
                        'traces: solver models of reached situations that the natively compiled code reproduced with the same situations and no failed check',
            assertions_met=sum(r['obligations'] for r in ok), assertions_left_to_solver=sum(r['to_solver'] for r in ok),
            runs_decided=len(ok), runs_total=len(results), solver_queries=sum(r['queries'] for r in ok), solver_s=round(sum(r['solver_s'] for r in ok), 1),
            unsat_answers_confirmed_by_cvc5=sum(r['cross']['agreed'] for r in ok), unsat_answers_cvc5_did_not_decide_in_10s=sum(r['cross']['undecided'] + r['cross']['skipped'] for r in ok), build_s=round(built, 1),
            obligation_kinds=list(kinds) if kinds else ['check', 'panic', 'memory', 'unwind'],
            runs=[dict(harness=r['h'], input_bytes='%d..%d' % (r['lo'], r['hi']), pinned=r['pin'] if len(r['pin']) < 32 else '%d of the bytes' % len(r['pin']), feature=r['feature'], label=r['label'], ir=r['ir'], status=r['status'], wall_s=r['wall_s'],
                       solver_s=r['solver_s'], queries=r['queries'], obligations=r['obligations'], traces=len(r['traces'])) for r in ok],
            functions_encoded=len(fn), pcics_functions=mine, errors=errors, undecided=undecided,
        ),
        assumptions=['inputs longer than the stated number of bytes are outside of the bounds', 'rustc/LLVM translate the source faithfully to the IR that is executed (opt-level 3, overflow checks on)',
                     'the IR semantics of irsym/eng.py (cross-checked natively on every reached situation)', 'z3 is right about unsatisfiability', 'at most 300 iterations per loop, or as many as the input has bytes (exceeding it is itself an obligation)'],
    )
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    print('%s %s: %d/%d runs decided, %d assertions, %d queries, solver %.1fs, wall %.1fs' % (
        prop, tier, len(ok), len(results), ev['coverage']['assertions_met'], ev['coverage']['solver_queries'], ev['coverage']['solver_s'], ev['wall_s']))
    for x in undecided:
        print('UNDECIDED (outside of what this run claims):', x)
    if reported:
        sys.exit(1)
    if errors:
        for x in errors:
            print('ERROR:', x)
        sys.exit(2)


if __name__ == '__main__':
    main()
