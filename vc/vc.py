"""Verification-condition generation for contracted functions, and the Verus run."""
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mir
import sym
from sym import (Term, Agg, Ref, Guard, Place, State, Frame, Exec, Prog, Ctx, Unsupported, Clo, UNIT, ident, subst, par, short, STRUCT_SORTS)
from rty import parse_ty
from srcinfo import Src
from lib import Lib

BUILD = os.path.join(os.path.dirname(HERE), '.build')


class Loop:
    def __init__(self, inv, decreases=None, hints=(), body_hints=(), back_hints=(), skolem=(), entry_hints=()):
        self.inv, self.decreases, self.hints, self.body_hints = list(inv), decreases, list(hints), list(body_hints)
        self.back_hints, self.skolem, self.entry_hints = list(back_hints), list(skolem), list(entry_hints)


class Contract:
    """params: 'self_: int, x: mut SChildren, c: cell int'
    requires/ensures: Verus texts over h0, h, parameters, new_<mut parameter>, ret.
    ghosts: universally quantified extra variables with grequires/gensures."""

    def __init__(self, key, params='', ret=None, heap=False, requires=(), ensures=(), pure=None, footprint=None, loops=None,
                 entry=(), exit=(), ghost=None, ghosts=(), grequires=(), gensures=(), decreases=None, trusted=None, rlimit=None, gtrigger=None, body=None, cases=(), allocates=False, marks=None, rec=(), split=None, merge=False):
        # merge: paths meet again at join points
        self.merge = merge
        # split: the proof is cut into one Verus function per arm of the switch on this parameter
        self.split = split
        # rec: what must hold at a recursive call (over the callee's parameters and the caller's ghosts)
        self.rec = list(rec)
        # marks: callee key -> (prefix, hints before, hints after): names <prefix>_h0, <prefix>_h, <prefix>_ret, <prefix>_<param>, <prefix>_new_<param> for the proof text of this function
        self.marks = marks or {}
        self.key = key
        self.params = []
        for p in split_params(params):
            n, t = [x.strip() for x in p.split(':', 1)]
            kind = 'val'
            if t.startswith('mut '):
                kind, t = 'mut', t[4:].strip()
            elif t.startswith('cell '):
                kind, t = 'cell', t[5:].strip()
            self.params.append((n, kind, t))
        self.ret, self.heap = ret, heap
        self.requires, self.ensures = list(requires), list(ensures)
        self.pure, self.footprint, self.loops = pure, footprint, loops or {}
        self.entry, self.exit, self.ghost = list(entry), list(exit), ghost or {}
        self.ghosts, self.grequires, self.gensures = list(ghosts), list(grequires), list(gensures)
        self.decreases, self.trusted, self.rlimit, self.gtrigger = decreases, trusted, rlimit, gtrigger
        self.body = body
        self.cases = cases
        self.allocates = allocates


def split_params(s):
    return [x for x in mir.split_top(s) if x.strip()]


def outs_of(c):
    outs = []
    if c.heap:
        outs.append(('h', 'Heap'))
    for n, kind, t in c.params:
        if kind == 'mut':
            outs.append(('new_' + n, t))
    if c.ret and c.ret != '()':
        outs.append(('ret', c.ret))
    return outs


def ct_text(c):
    """the contract as an axiom for callers"""
    outs = outs_of(c)
    name = 'ct_' + ident(c.key)
    ps = ', '.join(['h0: Heap'] + ['%s: %s' % (n, t) for n, _, t in c.params])
    if not outs:
        return ''
    rty = outs[0][1] if len(outs) == 1 else '(' + ', '.join(t for _, t in outs) + ')'
    lets = ''
    for i, (n, _) in enumerate(outs):
        lets += 'let %s = %s; ' % (n, 'r' if len(outs) == 1 else 'r.%d' % i)
    if not c.heap:
        lets += 'let h = h0; '
    t = '#[verifier::external_body]\nproof fn %s(%s) -> (r: %s)\n' % (name, ps, rty)
    if c.requires:
        t += '    requires ' + ',\n        '.join(c.requires) + '\n'
    ens = ['({ %s%s })' % (lets, e) for e in c.ensures]
    if c.gensures:
        vs = ', '.join('%s: %s' % (n, s) for n, s in c.ghosts)
        trig = '#![trigger %s] ' % c.gtrigger if c.gtrigger else ''
        for e in c.gensures:
            ens.append('({ %s forall|%s| %s(%s) ==> (%s) })' % (lets, vs, trig, ' && '.join('(%s)' % g for g in c.grequires) or 'true', e))
    if ens:
        t += '    ensures ' + ',\n        '.join(ens) + '\n'
    return t + '{ unimplemented!() }\n'


class Unit:
    """one generated proof function"""

    def __init__(self, key):
        self.key = key
        self.lines = []         # (text, label)
        self.status = 'generated'
        self.reason = None
        self.used = set()
        self.inlined = set()
        self.assumed = set()
        self.trusted = set()
        self.nobl = 0


class Gen:
    def __init__(self, mirtext, repo, contracts, loop_specs=None):
        self.src = Src(repo)
        bodies, allocs = mir.parse(mirtext)
        self.prog = Prog(bodies, allocs, self.src)
        self.ctx = Ctx(self.src)
        self.contracts = contracts
        self.lib = Lib()
        if loop_specs:
            self.lib.loop_specs = loop_specs
        self.sorts = set()
        self._maps = None

    def static_maps(self):
        """(name, id type, key, disps, entries) of the statics of type Map<..>, read from their MIR"""
        if self._maps is not None:
            return self._maps
        self._maps = []
        for nm, bs in self.prog.consts.items():
            for b in bs:
                m = re.match(r'^(?:names::)?Map<(?:names::)?(\w+)>$', b.ret or '')
                if not m:
                    continue
                en = m.group(1)
                name = nm.split('::')[-1]
                st = re.search(r'_0 = [\w:<>]+ \{ key: const (\d+)_u64, disps: (?:move|copy) _(\d+), entries: (?:move|copy) _(\d+) \};', b.text)
                defs = dict(re.findall(r'\b_(\d+) = (.*);', b.text))

                def table(n):
                    t = defs[n]
                    m2 = re.search(r'promoted\[(\d+)\]', t)
                    if not m2:
                        return table(re.search(r'_(\d+)', t).group(1))
                    pr = [x for n2, bs2 in self.prog.consts.items() for x in bs2 if n2.split('names::')[-1] == '%s::promoted[%s]' % (name, m2.group(1))]
                    text = pr[0].text
                    d = dict(re.findall(r'\b_(\d+) = (.*);', text))
                    arr = re.search(r'= \[(move _.*)\];', text).group(1)
                    return [d[x] for x in re.findall(r'_(\d+)', arr)], d
                try:
                    disps = [tuple(int(x) for x in re.match(r'^\(const (\d+)_u32, const (\d+)_u32\)$', r).groups()) for r in table(st.group(2))[0]]
                    rows, d = table(st.group(3))
                    entries = []
                    for r in rows:
                        s, v = re.match(r'^\(const "(.*)", (.*)\)$', r).groups()
                        mv = re.match(r'^(?:move|copy) _(\d+)$', v)
                        v = d[mv.group(1)] if mv else v
                        if '\\' in s:
                            raise Unsupported('escape in a table of names')
                        entries.append((s, self.ctx.fieldless[en][v.split('::')[-1]]))
                except (AttributeError, KeyError, IndexError) as e:
                    raise Unsupported('table %s has an unknown form' % name)
                self._maps.append((name, en, int(st.group(1)), disps, entries))
        return self._maps

    def body(self, key):
        c = self.contracts[key]
        return self.prog.by_short.get(c.body or key)

    def generate(self, key):
        u = Unit(key)
        c = self.contracts[key]
        b = self.body(key)
        if b is None:
            u.status, u.reason = 'missing', 'no function %s in the MIR' % key
            return u
        before = set(self.lib.trusted)
        self.lib.trusted = set()
        ex = None
        try:
            k, n = 0, 1
            while k < n:
                e2 = Exec(self.prog, self.ctx, self.contracts, self.lib)
                if ex is not None:
                    e2.used_contracts, e2.inlined, e2.assumed, e2.sorts, e2.n = ex.used_contracts, ex.inlined, ex.assumed, ex.sorts, ex.n
                ex = e2
                ex.merge = c.merge
                if c.split:
                    ex.split = (c.split, k)
                self.run(ex, u, c, b)
                u.lines += self.header(u, c, '_%d' % k if c.split else '') + ex.out.lines + [('}', None)]
                n = max(n, ex.split_n)
                k += 1
            u.nobl = sum(1 for _, l in u.lines if l)
        except Unsupported as e:
            u.status, u.reason = 'unsupported', str(e)
        except (KeyError, IndexError, AttributeError, ValueError, AssertionError, TypeError, RecursionError) as e:
            if os.environ.get('VC_DEBUG'):
                raise
            u.status, u.reason = 'unsupported', 'internal: %s: %s' % (type(e).__name__, e)
        u.used, u.inlined, u.assumed = ex.used_contracts, ex.inlined - {key}, ex.assumed
        u.trusted = set(self.lib.trusted)
        self.lib.trusted |= before
        self.sorts |= ex.sorts
        return u

    def header(self, u, c, suffix=''):
        t = [('#[verifier::spinoff_prover]', None)]
        t.append(('#[verifier::rlimit(%d)]' % (c.rlimit or 40), None))
        ps = ', '.join(['h0: Heap'] + ['%s: %s' % (n, s) for n, _, s in c.params] + ['%s: %s' % (n, s) for n, s in c.ghosts])
        t.append(('proof fn vc_%s%s(%s)' % (ident(c.key), suffix, ps), None))
        req = list(c.requires) + list(c.grequires)
        if req:
            t.append(('    requires', None))
            for r in req:
                t.append(('        %s,' % r, None))
        t.append(('{', None))
        entry = []
        for e in c.entry:
            entry += e(self) if callable(e) else [e]
        for e in entry:
            t.append(('    ' + e, None))
        return t

    def run(self, ex, u, c, b):
        st = State()
        f = Frame()
        f.fid, f.body, f.bb, f.dest, f.target, f.loops, f.subst, f.ret_ty = 'f0', b, 0, None, None, [], {}, None
        st.frames = [f]
        if len(b.params) != len(c.params):
            raise Unsupported('number of parameters of %s changed' % c.key)
        ex.footprint = c.footprint
        ex.top = c
        for (n, tt), (pn, kind, sort) in zip(b.params, c.params):
            ty = parse_ty(tt)
            if kind == 'cell':
                st.store[('f0', n)] = Ref(Place(('h', pn), (), ty.strip()), True)
                st.guards.append(('held', pn, True))
            elif kind == 'mut':
                key = ('arg', pn)
                st.store[key] = self.initial(ex, pn, sort, ty.strip())
                st.store[('f0', n)] = Ref(Place(('s', key), (), ty.strip()), True)
            else:
                st.store[('f0', n)] = self.initial(ex, pn, sort, ty)
        ex.leaves = lambda s, rv: self.leaf(ex, u, c, b, s, rv)
        ex.entry_h = 'h0'
        ex.run(st)

    def initial(self, ex, pn, sort, ty):
        if sort.startswith('(') and sort.endswith(')') and sort != '()':
            args = ty.args if ty.k == 'tuple' else [ty] * 9
            return Agg('tuple', None, [self.initial(ex, '%s.%d' % (pn, i), s.strip(), args[i]) for i, s in enumerate(mir.split_top(sort[1:-1]))], sort)
        m = re.match(r'^S([A-Z]\w*)$', sort)
        if m and m.group(1) in self.src.structs:
            nm = m.group(1)
            fs = self.src.structs[nm]
            return Agg(nm, None, [Term('%s.%s' % (pn, f), STRUCT_SORTS.get((nm, f), '?'), parse_ty(ft)) for f, ft in fs], sort)
        return Term(pn, sort, ty)

    def leaf(self, ex, u, c, b, st, rv):
        ex.cur = st
        o = ex.out
        o.put('{')
        o.ind += 1
        if c.heap or c.ensures or c.gensures or c.exit:
            pass
        h = st.heap
        if c.ghost:
            sub = {'h': h}
            g = ', '.join('%s: %s' % (k, v) for k, v in c.ghost.items())
            o.put('let h = %s;' % h)
            o.put('let h = Heap { %s, ..h };' % g)
        else:
            o.put('let h = %s;' % h)
        for pn, kind, sort in c.params:
            if kind == 'mut':
                v = st.store[('arg', pn)]
                o.put('let new_%s = %s;' % (pn, ex.struct_term(v) if isinstance(v, Agg) and v.variant is None and sort.startswith('S') and sort[1:2].isupper() and not sort.startswith('Seq') else ex.term(v)))
        if c.ret and c.ret != '()':
            v = ex.force(rv) if not isinstance(rv, Guard) else rv
            if c.ret == 'QName':
                v = ex.lib.to_qname(ex, v)
            if isinstance(v, Agg) and v.variant is None and re.match(r'^S[A-Z]\w*$', c.ret) and not c.ret.startswith('Seq'):
                o.put('let ret = %s;' % ex.struct_term(v))
            else:
                o.put('let ret: %s = %s;' % (c.ret, ex.term(v)))
        w = c.key + ': '
        if not c.heap:
            if st.heap != 'h0':
                o.put('assert(h == h0);', w + 'changes no node')
        for e in c.exit:
            if e.startswith('lemma ') or not e.startswith('assert'):
                o.put(e, None if not e.startswith('lemma_') else w + 'lemma: ' + e[:60])
            else:
                o.put(e, w + 'step: ' + e[:80])
        if c.pure is not None:
            o.put('assert(ret == (%s));' % c.pure, w + 'returns ' + c.pure)
        for i, e in enumerate(c.ensures):
            o.put('assert(%s);' % e, w + 'ensures ' + e[:100])
        for i, e in enumerate(c.gensures):
            o.put('assert(%s);' % e, w + 'ensures ' + e[:100])
        # guards still held at exit other than the one the caller gave or the one returned
        rg = rv.bid if isinstance(rv, Guard) else None
        left = [g for g in st.guards if g[0] not in ('held', rg)]
        if left:
            o.put('assert(false);', w + 'a borrow outlives the call')
        o.put('/*exit*/')
        o.ind -= 1
        o.put('}')


def prelude(gen=None, parts=('base', 'tree')):
    return '\n'.join(open(os.path.join(HERE, 'verus', p + '.rs')).read() for p in parts)


def assemble(units, cts, gen, parts, extra=''):
    """-> (text, line -> (unit key, label), unit line ranges)"""
    lines, labels, ranges = [], {}, {}

    def add(text, lab=None, key=None):
        for i, l in enumerate(text.split('\n')):
            lines.append(l)
        if lab:
            labels[len(lines)] = (key, lab)
    add('#![allow(unused)]\nuse vstd::prelude::*;\nverus! {')
    for p in parts:
        a = len(lines) + 1
        add(open(os.path.join(HERE, 'verus', p + '.rs')).read())
        ranges['lemmas:' + p] = (a, len(lines))
    if extra:
        a = len(lines) + 1
        add(extra)
        ranges['lemmas:extra'] = (a, len(lines))
    known = '\n'.join(lines)
    sorts = set()
    for n, (ss, r) in gen.lib.uninterp.items():
        for s in ss + [r]:
            sorts.add(s)
    sorts |= gen.sorts
    xs = set()
    for s in sorts:
        xs |= set(re.findall(r'\bX_\w+', s or ''))
    for u in units:
        for t, _ in u.lines:
            xs |= set(re.findall(r'\bX_\w+', t))
    xs |= set(re.findall(r'\bX_\w+', extra))
    for x in sorted(xs):
        if not re.search(r'\b(struct|enum|type) %s\b' % x, known):
            add('pub struct %s { pub v: int }' % x)
    for n, (ss, r) in sorted(gen.lib.uninterp.items()):
        if not re.search(r'\bfn %s\b' % n, known):
            add('pub uninterp spec fn %s(%s) -> %s;' % (n, ', '.join('a%d: %s' % (i, s) for i, s in enumerate(ss)), r))
    for c in cts:
        add(ct_text(c))
    for u in units:
        a = len(lines) + 1
        for t, lab in u.lines:
            add(t, lab, u.key)
        ranges[u.key] = (a, len(lines))
    full = '\n'.join(lines)
    for pre, en in (('AID', 'AttributeId'), ('EID', 'ElementId'), ('NT', 'NodeType'), ('LU', 'LengthUnit'), ('XS', 'XmlSpace')):
        for v in sorted(set(re.findall(r'\b%s_(\w+)\b' % pre, full))):
            if v in gen.ctx.fieldless.get(en, {}):
                add('pub spec const %s_%s: int = %d;' % (pre, v, gen.ctx.fieldless[en][v]))
    add('} // verus!\nfn main() {}')
    return '\n'.join(lines) + '\n', labels, ranges


def run_verus(path, rlimit=None, threads=8, timeout=800, errors=30):
    cmd = ['verus', path, '--num-threads', str(threads), '--multiple-errors', str(errors), '--output-json', '--time', '--triggers-mode', 'silent', '--error-format=json']
    t0 = time.time()
    env = dict(os.environ, RUST_MIN_STACK=str(256 << 20))
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=os.path.dirname(path))
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = '', 'timeout', 124
    diags = []
    for l in err.splitlines():
        if l.startswith('{'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        js = json.loads(out)
    except ValueError:
        js = {}
    return {'rc': rc, 'json': js, 'diags': diags, 'err': err, 'wall': time.time() - t0, 'cmd': ' '.join(cmd)}


def outcome(res, labels, ranges):
    """-> dict unit -> list of (label, message, kind); kind 'fail' | 'rlimit' | 'other'"""
    bad = {}
    for d in res['diags']:
        if d.get('level') != 'error':
            continue
        spans = d.get('spans') or []
        if not spans:
            continue
        msg = d.get('message', '')
        prim = [s for s in spans if s.get('is_primary')] or spans
        hit = None
        for s in spans:
            ln = s['line_start']
            if ln in labels:
                hit = labels[ln]
                break
        unit = None
        for k, (a, b) in ranges.items():
            if any(a <= s['line_start'] <= b for s in prim):
                unit = k
        if hit is not None and unit is None:
            unit = hit[0]
        kind = 'fail'
        if 'rlimit' in msg.lower() or 'resource limit' in msg.lower():
            kind = 'rlimit'
        elif not re.search(r'assertion failed|precondition not satisfied|postcondition not satisfied|not allowed|might|could not|decreases', msg):
            kind = 'other'
        bad.setdefault(unit, []).append((hit[1] if hit else '(line %d)' % prim[0]['line_start'], msg, kind, d.get('rendered', '')))
    return bad
