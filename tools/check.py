#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's current tree. Exit 0 held, 1 violated, 2 no answer."""
import json, os, sys, time, subprocess, tempfile, shutil, re
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prep, plan
V = prep.V
def known():
    """Recorded findings: lines 'known: property=ID entry=NAME id=TEXT | what fails'."""
    r = []
    p = os.path.join(V, 'KNOWN_FINDINGS')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\S+) entry=(\S+) id=(.*?) \| (.*)', l)
        if m: r.append(m.groups())
    return r
def native(prog, entry, hexs, timeout=60, env=None):
    with tempfile.NamedTemporaryFile('w', suffix='.hex', delete=False) as f: f.write(hexs)
    try:
        p = subprocess.run([prog, entry, f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=dict(os.environ, **(env or {})))
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired: return ('HANG', '', '')
    finally: os.unlink(f.name)
    o = re.findall(r'^OUT (.*)$', out, re.M)
    m = re.findall(r'^(FAIL|DONE|ASSUME|LIMIT|NOENTRY)(?: (.*))?$', out, re.M)
    if not m: return ('CRASH %d' % rc, out[-500:], '')
    return (m[-1][0], m[-1][1], o[-1] if o else '')
HANG = 'a task never comes back'
def concerns(prop, entry, vid, notes):
    """Does this failure break this property?"""
    if vid == HANG: return True
    m = re.match(r'((?:[A-Z]\d\d[, ]+)+)', vid)
    if m: return prop in re.findall(r'[A-Z]\d\d', m.group(1))
    w = re.findall(r'on panic: ([A-Z0-9 ]+)', notes)
    return prop in w[-1].split() if w else True

def main():
    t0 = time.time()
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    limit = 780 if tier == 'quick' else 6 * 3600
    try: built = prep.build(lambda s: print(s))
    except prep.SystemExit2 as e: print('ERROR build:', e); return 2
    ens = [e for e in plan.PLAN[prop] if (e.quick if tier == 'quick' else e.thorough)]
    # the codec's interface changed: the same question through the whole broker, where every failure counts
    fallback = prop in plan.FALLBACK and not isinstance(built.get('g_codec'), list)
    if fallback: ens = plan.FALLBACK[prop]; print('the codec harness does not build; using the whole broker instead')
    jobs = os.cpu_count() or 8
    tmp = tempfile.mkdtemp(prefix='ksx-')
    runs, errors, viols, knowns, warn, samples, validated = [], [], [], [], [], [], 0
    kf = known()
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    try:
        for e in ens:
            g = plan.group(e.name)
            b = built.get(g)
            if g == 'g_len' and g not in built: warn.append('%s: not run, the length codec is not where it was' % e.name); continue
            if not isinstance(b, list): warn.append('%s: not run, group %s does not build' % (e.name, g)); continue
            ir, nat = b
            left = limit - (time.time() - t0)
            if left < 5: warn.append('%s: not run, out of time' % e.name); continue
            out = os.path.join(tmp, e.name + '.json')
            budget = min(left, (e.time or 240) if tier == 'quick' else (e.time or 1500))
            p = subprocess.run([prep.KSX, ir, e.name, '--jobs', str(jobs), '--time', '%d' % budget, '--max-steps', str(e.steps), '--samples', '6', '--tmp', tmp, '--out', out],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if p.returncode or not os.path.exists(out): errors.append('%s: executor failed: %s' % (e.name, p.stdout[-800:])); continue
            d = json.load(open(out)); runs.append((e, d))
            n = 0
            for v in d['violations']:
                if not fallback and not concerns(prop, e.name, v['id'], v['notes']): continue
                k = [x for x in kf if x[0] == prop and x[1] == e.name and x[2] == v['id']]
                if k:
                    if k[0] not in knowns: knowns.append(k[0]); print('KNOWN-FINDING: property=%s %s' % (prop, k[0][3]))
                    continue
                kind, what, _ = native(nat, e.name, v['inputs'], 30 if v['id'] == HANG else 60, {'KSX_VIOLATION': '1'})
                ok = kind in ('FAIL', 'HANG') or kind.startswith('CRASH')
                rp = os.path.join(V, 'evidence', 'replay-%s-%d.txt' % (prop, len(viols) + 1))
                if ok:
                    open(rp, 'w').write('entry %s\nfailure %s\nwhere %s\ninputs (%s)\n%s\nreplay: %s %s %s\nthe real code: %s %s\nnotes %s\n' % (e.name, v['id'], v['where'], v['names'], v['inputs'], nat, e.name, v['inputs'], kind, what, v['notes']))
                    viols.append((e.name, v['id'], rp, kind, what)); n += 1
                    print('  %s: %s (real code: %s %s)' % (e.name, v['id'], kind, what))
                else: (warn if e.scaled else errors).append('%s: counterexample "%s" does not reproduce natively (%s %s) inputs %s' % (e.name, v['id'], kind, what, v['inputs']))
                if n >= 6 or n and v['id'] == HANG: break
            for w, x in d['incomplete'].items():
                if w.startswith('step limit') or w.startswith('deadlock'):
                    kind, what, _ = native(nat, e.name, x['inputs'], 30)
                    if kind == 'HANG' and prop in e.hang:
                        rp = os.path.join(V, 'evidence', 'replay-%s-%d.txt' % (prop, len(viols) + 1))
                        open(rp, 'w').write('entry %s\nfailure does not terminate\ninputs\n%s\nreplay: %s %s %s\n' % (e.name, x['inputs'], nat, e.name, x['inputs']))
                        viols.append((e.name, 'does not terminate', rp, kind, what)); print('  %s: does not terminate' % e.name); continue
                warn.append('%s: %d path(s) not finished: %s' % (e.name, x['count'], w))
            for i, (inp, o) in enumerate(d['samples'][:8 if tier == 'quick' else 24]):
                kind, what, no = native(nat, e.name, inp)
                if kind != 'DONE' or (no != o and not e.loose): (warn if e.scaled and kind == 'FAIL' else errors).append('%s: a path of the encoding disagrees with the real code: inputs %s encoding %s real %s %s %s' % (e.name, inp, o, kind, what, no))
                else: validated += 1
                if i < 2: samples.append({'entry': e.name, 'inputs': inp[:400], 'observed': o[:400], 'real_code': kind})
            miss = [c for c in e.covers if c not in d['covers']]
            if miss and not d['violations']: errors.append('%s: never reached %s' % (e.name, miss))
            if viols and tier == 'quick': break
        st = lambda k: sum(d['stats'].get(k, 0) for _, d in runs)
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': plan.LEVEL, 'wall_s': round(time.time() - t0, 2), 'violations': len(viols), 'assumptions': plan.ASSUME + plan.ASSUME_S * (prop[0] in 'STG'),
              'coverage': {
                'explanation': 'Each entry is executed symbolically from the LLVM IR of the current tree; a state is one feasible path (a set of inputs described by its path condition), decided by the solver for all its inputs at once. transitions are the forks between them.',
                'states': int(sum(d['paths'] + d['pruned'] + d['failed'] for _, d in runs)), 'transitions': int(st('forks')), 'traces_validated_against_impl': validated, 'samples': samples or ['none'],
                'exhaustive': not warn and not errors and not viols, 'bounds': {e.name: e.bound for e, _ in runs},
                'entries': {e.name: {'paths': d['paths'], 'failed': d['failed'], 'complete': d['complete'], 'wall_s': d['wall_seconds'], 'reached': d['covers'], 'stats': d['stats']} for e, d in runs},
                'queries': {'z3': int(st('z3_queries')), 'decided_on_one_byte_domain': int(st('byte_domain_queries')), 'answered_from_cache': int(st('cached_queries')), 'unknown': int(st('unknown')), 'solver_seconds': round(st('solver_seconds'), 2)},
                'instructions_executed': int(st('instructions')), 'not_finished': warn, 'errors': errors,
                'functions_encoded': sorted(set(f for _, d in runs for f in plan.ours(d['functions']))), 'other_functions_encoded': len(set(f for _, d in runs for f in d['functions'])) }}
        json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    for w in warn: print('INCOMPLETE', w)
    for e, d in runs: print('%-18s %8d paths %7.1f s%s' % (e.name, d['paths'], d['wall_seconds'], '' if d['complete'] else ' (not finished)'))
    if viols:
        for v in viols[:1]: print('VIOLATION property=%s replay=%s' % (prop, v[2]))
        return 1
    if not runs and not errors: errors.append('nothing could be run'); print(next((b for b in built.values() if not isinstance(b, list)), ''))
    if errors:
        for e in errors: print('ERROR', e)
        return 2
    print('property %s held: %d paths, %d replayed natively, %.1f s' % (prop, sum(d['paths'] for _, d in runs), validated, time.time() - t0))
    return 0
if __name__ == '__main__': sys.exit(main())
