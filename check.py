#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's current tree."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
REPO = '/repo'
BUILD = os.path.join(HERE, '.build')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

import vc
import props


def log(*a):
    print(*a, flush=True)


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def build_mir():
    """MIR of /repo's library, as rustc emits it for the current working tree"""
    out = os.path.join(BUILD, 'svgdom.%d.%d.mir' % (os.getpid(), time.time_ns()))
    os.makedirs(BUILD, exist_ok=True)
    # rustc must run even if cargo thinks nothing changed
    p = sh(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--', '-Zunpretty=mir', '-o', out], REPO,
           {'CARGO_TARGET_DIR': os.path.join(BUILD, 'mir'), 'CARGO_TERM_COLOR': 'never'})
    if p.returncode != 0 or not os.path.exists(out):
        return None, p.stderr
    text = open(out).read()
    os.remove(out)
    return text, p.stderr


def run_harness(prop, seed, millis, replay):
    exe = os.path.join(BUILD, 'harness', 'debug', 'harness')
    try:
        p = subprocess.run([exe, 'run', prop, str(seed), str(millis), replay], capture_output=True, text=True, timeout=millis / 1000 + 120)
    except subprocess.TimeoutExpired:
        return {'rc': 3, 'msg': 'harness timed out', 'json': {}}
    js, msg = {}, ''
    for l in p.stdout.splitlines():
        if l.startswith('JSON '):
            js = json.loads(l[5:])
        elif l.startswith('FAIL '):
            msg = l[5:]
    return {'rc': p.returncode, 'msg': msg or p.stderr[-500:], 'json': js}


def closure(gen, keys, inline):
    """units for keys and for every contract they rely on"""
    done, todo, order = {}, list(keys), []
    while todo:
        k = todo.pop(0)
        if k in done or k not in gen.contracts:
            continue
        u = gen.generate(k)
        done[k] = u
        order.append(u)
        todo += sorted(u.used)
    return order


class Proof:
    """generate, verify, and — where a private helper's contract no longer fits — inline that helper and retry"""

    def __init__(self, prop, mirtext, tier):
        self.prop, self.spec, self.mir, self.tier = prop, props.PROPS[prop], mirtext, tier
        self.solver_s = 0.0
        self.runs = 0
        self.verus_output = ''
        # what the verifier may take in all; the harness needs its share of the time, too
        self.deadline = time.time() + (480 if tier == 'quick' else 3000)
        self.errors = self.spec.get('errors', 30)

    def attempt(self, inline):
        cs = {k: c for k, c in props.all_contracts().items() if k not in inline}
        gen = vc.Gen(self.mir, REPO, cs)
        keys = [k for k in self.spec['units'] if k in cs]
        for us, _ in self.spec.get('also', ()):
            keys += [k for k in us if k in cs and k not in keys]
        units = closure(gen, keys, inline)
        ok = [u for u in units if u.status == 'generated']
        bad = [u for u in units if u.status != 'generated']
        used = set()
        for u in ok:
            used |= u.used
        cts = [cs[k] for k in cs if k in used]
        keys = used | {u.key for u in units}
        self.parts = props.parts(self.spec['parts'], keys)
        try:
            extra = props.extra(gen, keys, self.parts)
            ok += props.extra_units(gen, keys)
        except vc.Unsupported as e:
            u = vc.Unit('tables')
            u.status, u.reason = 'unsupported', str(e)
            units.append(u)
            bad.append(u)
            extra = ''
        for _ in range(4):
            text, labels, ranges = vc.assemble(ok, cts, gen, self.parts, extra)
            path = os.path.join(BUILD, 'vc_%s.rs' % self.prop)
            open(path, 'w').write(text)
            res = vc.run_verus(path, timeout=max(60, self.deadline - time.time()), errors=self.errors)
            self.runs += 1
            self.solver_s += res['wall']
            out = vc.outcome(res, labels, ranges)
            # proof text that no longer compiles (it names a variable that is gone, say) loses that unit only
            broken = {k: fs for k, fs in out.items() if k in gen.contracts and any(f[2] == 'other' for f in fs)}
            if not broken:
                break
            for u in list(ok):
                if u.key in broken:
                    ok.remove(u)
                    u.status, u.reason = 'unsupported', 'its proof text does not compile: ' + broken[u.key][0][1]
                    bad.append(u)
        self.verus_output = res['err']
        return dict(cs=cs, gen=gen, units=units, ok=ok, bad=bad, res=res, out=out, labels=labels, ranges=ranges, cts=cts, extra=extra)

    def run(self):
        inline, pinned = set(), set()
        first = None
        for _ in range(8):
            a = self.attempt(inline)
            # a helper with loops or recursion of its own cannot be judged through its callers: its contract stays
            stuck = set()
            for u in a['bad']:
                m = re.search(r'loop \d+ of (.*) needs an invariant|recursion without a contract: (.*)', u.reason or '')
                if m:
                    stuck.add((m.group(1) or m.group(2)).strip())
            stuck &= inline
            if stuck:
                inline -= stuck
                pinned |= stuck
                continue
            if first is None:
                first = a
            failing = {k for k in a['out'] if k in a['cs']} | {u.key for u in a['bad']}
            # only a helper that some other unit calls can be judged through its caller, and a recursive one cannot be inlined
            called = {k for u in a['units'] for k in u.used if k != u.key}
            selfrec = {u.key for u in a['units'] if u.key in u.used} | props.RECURSIVE
            cand = {k for k in failing if k in props.PRIVATE and k in called and k not in selfrec and k not in pinned}
            if not cand or time.time() > self.deadline - 120:
                break
            inline |= cand
        self.inline = inline
        self.a = a
        self.judge(a)
        return self

    def judge(self, a):
        own = set(self.spec['units']) | {u.key for u in a['ok'] if u.key.startswith('static ') and self.prop == 'C13'}
        lab = re.compile(self.spec.get('labels', '.'))
        ann = re.compile(props.ANNOTATION)
        self.refuted, self.lost, self.machinery = [], [], []
        for u in a['bad']:
            self.lost.append((u.key, u.status + ': ' + (u.reason or '')))
        js = a['res']['json'].get('verification-results', {})
        n_err = js.get('errors', None)
        if not js or js.get('encountered-vir-error'):
            self.machinery.append('Verus did not run to the end: ' + a['res']['err'][-1500:])
        for k, fs in a['out'].items():
            for label, msg, kind, rendered in fs:
                if k is None or str(k).startswith('lemmas:'):
                    self.machinery.append('%s: %s: %s' % (k, label, msg))
                elif kind == 'other':
                    self.machinery.append('%s: %s' % (k, msg))
                elif kind == 'rlimit':
                    self.lost.append((k, 'solver gave up: ' + msg))
                elif ann.search(label) or re.search(props.OWN_PRECONDITION, label):
                    self.lost.append((k, 'annotation no longer fits: ' + label))
                elif (k in own and lab.search(label)) or any(k in us and re.search(rx, label) for us, rx in self.spec.get('also', ())):
                    self.refuted.append((k, label, rendered))
                else:
                    self.lost.append((k, 'supporting obligation failed: ' + label))
        gone = [u.key for u in a['bad'] if u.status == 'missing' and u.key in props.PRIVATE]
        if gone:
            # a private helper that carried part of the proof is gone: what fails elsewhere may only miss that part
            self.lost += [(k, 'not re-proved without %s: %s' % (', '.join(gone), label)) for k, label, _ in self.refuted]
            self.refuted = []
        self.obligations = sum(u.nobl for u in a['ok']) + len(a['bad'])
        bad_lines = 0
        for k, fs in a['out'].items():
            u = next((u for u in a['ok'] if u.key == k), None)
            if any(f[2] == 'rlimit' for f in fs):
                bad_lines += u.nobl if u else 1
            else:
                bad_lines += len(fs)
        self.failed = bad_lines + len(a['bad'])
        self.discharged = 0 if self.machinery else max(0, self.obligations - self.failed)

    def canary(self):
        """reachability: with assert(false) put at the exits of a unit, at least one exit must be refutable"""
        a = self.a
        units, names = [], []
        for u in a['ok']:
            if u.key.startswith('static '):
                continue
            v = vc.Unit(u.key)
            v.lines = [(t, None) for t, _ in u.lines]
            v.lines = []
            n = 0
            for t, l in u.lines:
                if '/*exit*/' in t:
                    ind = t[:len(t) - len(t.lstrip())]
                    v.lines.append((ind + 'assert(false);', 'canary'))
                    n += 1
                elif l and not t.lstrip().startswith('let '):
                    # what the unit asserts holds on this tree; assume it to keep the canary run cheap
                    v.lines.append((re.sub(r'^(\s*)assert\((.*)\);$', r'\1assume(\2);', t), None))
                else:
                    v.lines.append((re.sub(r'rlimit\(\d+\)', 'rlimit(4)', t) if t.startswith('#[verifier::rlimit') else t, None))
            if n:
                units.append(v)
        text, labels, ranges = vc.assemble(units + [u for u in a['ok'] if u.key.startswith('static ')], a['cts'], a['gen'], self.parts, a['extra'])
        path = os.path.join(BUILD, 'canary_%s.rs' % self.prop)
        open(path, 'w').write(text)
        res = vc.run_verus(path, timeout=200 if self.tier == 'quick' else 800)
        self.solver_s += res['wall']
        if not res['json']:
            return [], 0
        out = vc.outcome(res, labels, ranges)
        return [u.key for u in units if u.key not in out], len(units)


def known_findings():
    res = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property='):
                m = re.match(r'known: property=(\S+) (.*)', l)
                res.append((m.group(1), m.group(2)))
    return res


def write_obligation_replay(path, prop, refuted, output):
    with open(path, 'w') as f:
        f.write('property %s\nno concrete input: the verifier rejects these obligations, generated from /repo\'s current source\n\n' % prop)
        for k, label, rendered in refuted:
            f.write('FAILED OBLIGATION in %s\n  %s\n\n%s\n' % (k, label, rendered))
        f.write('\nverifier output (tail)\n')
        f.write(output[-4000:])


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    replay_dir = os.path.join(BUILD, 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    spec = props.PROPS[prop]

    # cargo compares mtimes only: make it look at /repo again
    for f in glob.glob(os.path.join(BUILD, 'harness', 'debug', '.fingerprint', 'svgdom-*')):
        shutil.rmtree(f, ignore_errors=True)
    hb = subprocess.Popen(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(HERE, 'harness'),
                          env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'harness')), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    mirtext, err = build_mir()
    if mirtext is None:
        hb.communicate()
        log('/repo does not build:\n' + err[-3000:])
        return 2
    pr = Proof(prop, mirtext, tier).run()
    vac, ncan = ([], 0)
    if not pr.machinery and time.time() < pr.deadline + 60:
        vac, ncan = pr.canary()
    _, herr = hb.communicate()
    harness_ok = hb.returncode == 0
    if not harness_ok:
        log('note: the replay harness does not build against this tree:\n' + herr[-1500:])

    undecided = bool(pr.refuted or pr.lost or pr.machinery or vac)
    base_ms = {'quick': 8000, 'thorough': 240000}[tier]
    millis = spec.get('harness_ms', {}).get(tier, base_ms)
    if undecided:
        millis = max(millis, 60000)
    replay = os.path.join(replay_dir, '%s.txt' % prop)
    hr = {'rc': 0, 'msg': '', 'json': {}}
    if harness_ok:
        hr = run_harness(prop, seed, millis, replay)
        if hr['rc'] == 3:
            log('note: harness: ' + hr['msg'])

    violations = 0
    rc = 0
    for p, what in known_findings():
        if p == prop:
            log('KNOWN-FINDING: property=%s %s' % (p, what))
    for k, why in pr.lost:
        log('UNDISCHARGED %s: %s' % (k, why))
    for m in pr.machinery:
        log('MACHINERY %s' % m)
    for k in vac:
        log('VACUOUS %s: no reachable exit' % k)
    if hr['rc'] == 1:
        violations = 1
        rc = 1
        log('counterexample: ' + hr['msg'])
        for k, label, _ in pr.refuted[:10]:
            log('failed obligation: %s: %s' % (k, label))
        log('VIOLATION property=%s replay=%s' % (prop, replay))
    elif pr.refuted:
        violations = len(pr.refuted)
        rc = 1
        replay = os.path.join(replay_dir, '%s.obligation.txt' % prop)
        write_obligation_replay(replay, prop, pr.refuted, pr.verus_output)
        for k, label, _ in pr.refuted[:10]:
            log('failed obligation: %s: %s' % (k, label))
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))

    a = pr.a
    assumed, trusted, inlined = set(), set(), set()
    for u in a['ok']:
        assumed |= u.assumed
        trusted |= u.trusted
        inlined |= u.inlined
    js = hr['json']
    status = 'proved' if not undecided else 'partly proved'
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': pr.obligations, 'discharged': pr.discharged,
            'checker_cmd': a['res']['cmd'],
            'trusted_base': props.TRUSTED_BASE + sorted('library model: ' + t for t in trusted) + sorted('assumed: ' + t for t in assumed),
            'back_end': 'Verus %s (Z3)' % a['res']['json'].get('verus', {}).get('version', '?'),
            'solver_wall_s': round(pr.solver_s, 2), 'verifier_runs': pr.runs + (1 if ncan else 0),
            'functions_under_contract': sorted(u.key for u in a['ok']),
            'functions_inlined': sorted(inlined),
            'contracts_dropped_and_inlined': sorted(pr.inline),
            'undischarged': ['%s: %s' % x for x in pr.lost],
            'refuted': ['%s: %s' % x[:2] for x in pr.refuted],
            'units_with_reachable_exit': ncan - len(vac), 'vacuous_units': vac,
            'status': status,
            'proved_part': spec.get('proved', ''), 'bounded_part': spec.get('bounded', ''),
            'bounded_standin': {'evaluations': js.get('evaluations', 0), 'distinct_nontrivial': js.get('distinct_nontrivial', 0),
                                'samples': js.get('samples', [])[:3], 'exhaustive_parts': js.get('exhaustive_parts', []), 'millis': millis,
                                'note': 'random and small-exhaustive executions of the real library against an independent oracle; finds concrete inputs, never counted as proved'},
        },
        'assumptions': props.ASSUMPTIONS + spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': violations,
    }
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    log('%s %s: %d/%d obligations discharged, %d functions under contract, harness %s evaluations, %.1f s' % (
        prop, tier, pr.discharged, pr.obligations, len(a['ok']), js.get('evaluations', 0), time.time() - t0))
    if pr.machinery and rc == 0 and not harness_ok:
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
