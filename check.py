#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's current source.

Extracts the type-checked program (MIR) afresh, evaluates the property's rules on it and writes
evidence/ID.json. Exit 0: every obligation holds, or fails only as listed in known-findings.txt.
Exit 1 with VIOLATION lines: an obligation fails. Exit 2: /repo could not be compiled."""
import hashlib, json, os, re, signal, subprocess, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)

def known():
    d = {}
    for l in open(os.path.join(V, 'known-findings.txt')):
        l = l.rstrip('\n')
        if l.startswith('finding: property='):
            head, key = l[len('finding: property='):].split(' key=', 1)
            key, _, what = key.partition(' :: ')
            d.setdefault(head.strip(), {})[key.strip()] = what.strip()
    return d

class Overtime(BaseException): pass
def overtime(*a): raise Overtime('the analysis did not end in time')

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    os.makedirs(os.path.join(V, 'work'), exist_ok=True); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    from mc.core import Engine, Ck, Missing
    from mc.rules import RULES, FLOORS
    # both build profiles: what debug_assert and cfg(debug_assertions) leave out of a release build is judged too
    cks = []; seen = {}; notes = []
    for prof in ('dev', 'release'):
        facts = os.path.join(V, 'work', 'facts.%d.%s.json' % (os.getpid(), prof))
        r = subprocess.run([os.path.join(V, 'extract.sh')], env=dict(os.environ, MC_OUT=facts, MC_PROFILE=prof))
        if r.returncode != 0:
            if os.path.exists(facts): os.remove(facts)
            print('ERROR: the fact extraction failed: /repo does not compile (%s profile)' % prof); return 2
        try:
            with open(facts) as f: d = json.load(f)
            d.pop('items', None)
            h = hashlib.sha256(re.sub(r'libmcaptcha\[[0-9a-f]+\]', 'libmcaptcha', json.dumps(d)).encode()).hexdigest()
            if h in seen and tier != 'thorough':
                notes.append('the %s profile compiles to the same program as the %s profile' % (prof, seen[h])); continue
            seen[h] = prof
            e = Engine(facts)
        finally:
            if os.path.exists(facts): os.remove(facts)
        ck = Ck(e, pid); ck.tier = tier; ck.prof = prof; cks.append(ck)
        old = signal.signal(signal.SIGALRM, overtime); signal.alarm(330)
        try:
            RULES[pid](ck)
        except Missing: pass
        except (Exception, Overtime) as x:
            signal.alarm(0)
            traceback.print_exc()
            ck.ob('analysable', 'source of the rules of ' + pid, False, 'not decidable by the analysis (%s: %s), so not shown to hold' % (type(x).__name__, x), e.stack[-1] if e.stack else None)
        finally: signal.alarm(0)
    ck = cks[0]; e = ck.e; ck.notes['profiles'] = notes
    for c in cks[1:]:
        for k, v in c.viol.items():
            if k not in ck.viol: ck.viol[k] = dict(v, message='in a release build: ' + v['message'])
        notes.append('%s profile: %d obligations, %d holding' % (c.prof, len(c.obs), sum(g for _, _, g in c.obs)))
    counts = {}
    for rule, inst, good in ck.obs:
        c = counts.setdefault(rule, [0, 0]); c[0] += 1; c[1] += good
    insts = {(r, i) for r, i, g in ck.obs}
    fl = FLOORS.get(pid, 1)
    if not ck.viol and len(insts) < fl:
        ck.ob('floor', 'instances', False, '%d rule instances, at least %d are known to exist' % (len(insts), fl))
    kn = known().get(pid, {})
    new = []; old = []
    for k, v in ck.viol.items():
        (old if k in kn else new).append(v)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Path-sensitive abstract interpretation of the MIR of every function the rules of this property reach, '
                           'from /repo\'s current source; each obligation is one rule instance on one abstract path or call site.',
            'obligations': len(ck.obs), 'holding': sum(g for _, _, g in ck.obs), 'distinct_instances': len(insts),
            'functions_analysed': len(e.analysed), 'roots': sorted(ck.roots)[:80], 'abstract_paths': e.npaths, 'call_sites': e.callsites,
            'bodies_in_crate': len(e.fns), 'loops': len(e.loops),
            'rules': {r: {'obligations': c[0], 'holding': c[1]} for r, c in sorted(counts.items())},
            'samples': ck.samples, 'unmodelled_externals': dict(sorted(e.unknown.items())[:60]),
            'notes': ck.notes, 'known_findings': [v['key'] for v in old], 'violations': [v['key'] for v in new],
        },
        'wall_s': round(time.time() - t0, 2),
    }
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for v in old:
        print('KNOWN-FINDING: property=%s %s (%s) at %s' % (pid, v['key'], kn[v['key']] or v['message'], v['location']))
    rp = os.path.join(V, 'evidence', pid + '.violations.txt')
    if os.path.exists(rp): os.remove(rp)
    if new:
        with open(rp, 'w') as f:
            for v in new:
                f.write('%s\n  rule: %s\n  instance: %s\n  at: %s\n  %s\n' % (v['key'], v['rule'], v['instance'], v['location'], v['message']))
        for v in new[:20]:
            print('%s: %s: %s: %s' % (v['location'] or '?', v['rule'], v['instance'], v['message'][:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s %d obligations on %d instances, %d functions, %d paths, %d call sites, %.1fs' % (pid, len(ck.obs), len(insts), len(e.analysed), e.npaths, e.callsites, time.time() - t0))
    return 0

if __name__ == '__main__':
    sys.exit(main())
