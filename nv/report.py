"""Evidence, replay files and the verdict."""
import collections, json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = collections.defaultdict(lambda: 'proof')

def known():
    """known-findings.txt: lines 'known: property=<id> key=<key> <what>'"""
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else ():
        if l.startswith('known:'):
            f = dict(x.split('=', 1) for x in l.split()[1:3]); out[f['property'], f['key']] = l.strip()
    return out

def report(prop, tier, seed, outs, wall, verbose, assumptions, trusted):
    errs = [o for o in outs if o.get('error')]; berr = [o for o in outs if o.get('build_error')]
    tot = collections.Counter(); by = collections.Counter(); kinds = collections.Counter(); fns = set(); cons = set(); bounded = []; viol = []; samples = []; skipped = []; notes = []
    solver = collections.Counter(); extra = []
    for o in outs:
        for f in ('obligations', 'discharged', 'entries', 'loops', 'calls'): tot[f] += o.get(f, 0)
        by.update(o.get('by', {})); kinds.update(o.get('kinds', {})); fns |= set(o.get('functions', ())); cons |= set(o.get('contracts', ()))
        bounded += o.get('bounded', []); viol += o.get('violations', []); samples += o.get('samples', []); skipped += o.get('skipped', []); notes += o.get('notes', [])
        if 'extra' in o: extra.append(o['extra'])
        for f, v in o.get('solver', {}).items():
            if f != 'max_s': solver[f] += v
    for o in berr:
        viol.append({'obligation': 'the headers compile (%s)' % o['cfg'], 'kind': 'compile', 'found': True, 'case': {'what': 'headers do not compile', 'log': o['build_error'], 'config': o['cfg']}})
    kn_ = known(); fresh = []; seen = []
    for v in viol:
        key = v['obligation'].split(':')[0].split(' ')[0]
        if (prop, key) in kn_: seen.append(kn_[prop, key])
        else: fresh.append(v)
    cov = {'obligations': tot['obligations'], 'discharged': tot['discharged'],
           'checker_cmd': 'python3-vt /verif/check.py --property %s --tier %s' % (prop, tier), 'trusted_base': trusted,
           'entries_under_contract': tot['entries'], 'functions_executed_symbolically': len(fns), 'callee_contracts_used': sorted(x for x in demangle(cons) if x), 'loops_with_invariants': tot['loops'],
           'obligations_by_kind': dict(kinds), 'discharged_by': dict(by), 'solver_queries': int(solver['queries']), 'solver_seconds': round(solver['solver_s'], 2),
           'bounded_stand_ins': bounded[:200], 'bounded_count': len(bounded), 'concrete_calls': tot['calls'], 'skipped_entries': skipped, 'notes': notes[:20], 'samples': samples[:6],
           'functions': sorted(x for x in demangle(fns) if x)[:400]}
    sh = sorted(x for o in outs for x in o.get('short', ()))
    if sh: cov['entries_proved_for_n_up_to_2^30_only'] = sh[:200]
    if extra: cov['lemmas'] = extra
    cf = [o['conformance'] for o in outs if o.get('conformance')]
    if cf: cov['conformance_runs'] = {'builds': cf[0]['builds'], 'entries': sum(c['entries'] for c in cf), 'runs': sum(c['runs'] for c in cf)}
    level = LEVEL[prop]
    if level == 'other': cov['explanation'] = EXPLAIN.get(prop, '')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d entries, %d obligations, %d discharged, %d bounded, %d violations, %.1f s' % (prop, tier, tot['entries'], tot['obligations'], tot['discharged'], len(bounded), len(fresh), wall))
    for l in sorted(set(seen)): print('KNOWN-FINDING: ' + l[len('known: '):])
    if verbose:
        for b in bounded: print('bounded', b)
        for s in skipped + notes: print('note', s)
    for o in errs: print('internal error in %s/%s:\n%s' % (o.get('cfg'), o.get('e'), o['error']))
    if fresh:
        fresh.sort(key=lambda v: (not v['found'], v['kind'] == 'compile'))
        d = os.path.join(HERE, 'replays'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (prop, tier))
        json.dump({'property': prop, 'violations': fresh[:20], 'total': len(fresh)}, open(p, 'w'), indent=1, default=str)
        for v in fresh[:6]:
            c = v['case']
            print('failed obligation: %s' % v['obligation'][:300])
            if v['found']: print('  input: %s' % json.dumps({q: c.get(q) for q in ('what', 'n', 'index', 'inputs at index', 'scalars', 'got', 'want') if c.get(q) is not None}, default=str)[:500])
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if fresh[0]['found'] else ' no-failing-input-found'))
        return 1
    if errs or not tot['obligations']:
        print('no verdict: internal error'); return 2
    return 0

EXPLAIN = {}
def demangle(fns):
    try: return subprocess.run(['c++filt'], input='\n'.join(fns), stdout=subprocess.PIPE, text=True).stdout.split('\n')
    except OSError: return list(fns)
