"""Symbolic execution of MIR bodies into Verus proof functions.

One proof function per contracted body.  Paths are nested if/else; every
obligation is one `assert` line with a label.  Functions without a contract
are inlined; functions with one are used through the contract only."""
import re
import copy
from mir import find_close, split_top, last_group
from rty import parse_ty, Ty, canon, INTMAX

TREE_FIELDS = ['parent', 'first_child', 'last_child', 'previous_sibling', 'next_sibling']
DATA_FIELDS = ['storage_key', 'node_type', 'tag_name', 'id', 'attributes', 'linked_nodes', 'text']
HEAP_SORT = dict(parent='Option<int>', first_child='Option<int>', last_child='Option<int>', previous_sibling='Option<int>',
                 next_sibling='Option<int>', storage_key='Option<int>', node_type='int', tag_name='QName', id='Seq<char>',
                 attributes='Seq<Attribute>', linked_nodes='Seq<int>', text='Seq<char>')


class Unsupported(Exception):
    pass


class NeedVariant(Exception):
    def __init__(self, term, ty, variants):
        self.term, self.ty, self.variants = term, ty, variants


class CannotMerge(Exception):
    def __init__(self, site):
        self.site = site


class NeedBool(Exception):
    def __init__(self, text):
        self.text = text


class Term:
    __slots__ = ('t', 'sort', 'ty')

    def __init__(self, t, sort, ty=None):
        self.t, self.sort, self.ty = t, sort, ty

    def __repr__(self):
        return 'Term(%s)' % self.t

    def same(self, o):
        return isinstance(o, Term) and o.t == self.t


class Agg:
    """kind: 'tuple' | adt name; variant: None for structs"""
    __slots__ = ('kind', 'variant', 'fields', 'sort', 'names')

    def __init__(self, kind, variant, fields, sort=None, names=None):
        self.kind, self.variant, self.fields, self.sort, self.names = kind, variant, list(fields), sort, names

    def __repr__(self):
        return 'Agg(%s::%s %r)' % (self.kind, self.variant, self.fields)

    def same(self, o):
        return (isinstance(o, Agg) and o.kind == self.kind and o.variant == self.variant and len(o.fields) == len(self.fields)
                and all(same(a, b) for a, b in zip(self.fields, o.fields)))


class Ref:
    __slots__ = ('place', 'mut')

    def __init__(self, place, mut=True):
        self.place, self.mut = place, mut

    def __repr__(self):
        return 'Ref(%r)' % (self.place,)

    def same(self, o):
        return isinstance(o, Ref) and o.place == self.place


class Guard:
    __slots__ = ('bid', 'place', 'mut')

    def __init__(self, bid, place, mut):
        self.bid, self.place, self.mut = bid, place, mut

    def same(self, o):
        return isinstance(o, Guard) and o.bid == self.bid and o.place == self.place


class Clo:
    __slots__ = ('key', 'caps')

    def __init__(self, key, caps):
        self.key, self.caps = key, caps

    def same(self, o):
        return isinstance(o, Clo) and o.key == self.key and len(o.caps) == len(self.caps) and all(same(a, b) for a, b in zip(self.caps, o.caps))


class FnVal:
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def same(self, o):
        return isinstance(o, FnVal) and o.path == self.path


class Disc:
    __slots__ = ('v', 'ty')

    def __init__(self, v, ty):
        self.v, self.ty = v, ty

    def same(self, o):
        return isinstance(o, Disc) and same(self.v, o.v)


def same(a, b):
    return a is b or a.same(b)


UNIT = Agg('tuple', None, [], '()')
TRUE, FALSE = Term('true', 'bool'), Term('false', 'bool')


class Place:
    """base ('s', key) or ('h', node-text); projs: ('f', i) | ('v', variant) | ('i', index-text)"""
    __slots__ = ('base', 'projs', 'ty')

    def __init__(self, base, projs=(), ty=None):
        self.base, self.projs, self.ty = base, tuple(projs), ty

    def add(self, p, ty=None):
        return Place(self.base, self.projs + (p,), ty)

    def __eq__(self, o):
        return isinstance(o, Place) and self.base == o.base and self.projs == o.projs

    def __repr__(self):
        return 'Place(%r,%r)' % (self.base, self.projs)


class Frame:
    __slots__ = ('fid', 'body', 'bb', 'dest', 'target', 'loops', 'subst', 'ret_ty')

    def copy(self):
        f = Frame()
        for s in Frame.__slots__:
            setattr(f, s, getattr(self, s))
        f.loops = list(self.loops)
        return f


class State:
    def __init__(self):
        self.store = {}
        self.heap = 'h0'
        self.guards = []      # (bid, node text, mut)
        self.known = {}
        self.frames = []
        self.conds = []
        self.ghost = {}
        self.given = self.arm = None

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.heap = self.heap
        s.guards = list(self.guards)
        s.known = dict(self.known)
        s.frames = [f.copy() for f in self.frames]
        s.conds = list(self.conds)
        s.ghost = dict(self.ghost)
        s.given, s.arm = self.given, self.arm
        return s


class Out:
    """nested output with labelled obligations"""

    def __init__(self):
        self.lines = []
        self.ind = 1

    def put(self, text, label=None):
        self.lines.append(('    ' * self.ind + text, label))


class Prog:
    """bodies and name resolution"""

    def __init__(self, bodies, allocs, src):
        self.bodies, self.allocs, self.src = bodies, allocs, src
        self.methods = {}     # (type, method) -> [(trait, Body, header)]
        self.free = {}        # last segment -> [Body]
        self.closures = {}    # '{closure@..}' -> Body
        self.consts = {}
        self.by_short = {}
        for name, bs in bodies.items():
            for b in bs:
                self.index(name, b)
        for (ty, m), cs in self.methods.items():
            for i, (tr, b, hdr) in enumerate(cs):
                if m == 'from' and len(cs) > 3 and b.params:
                    self.by_short.setdefault('%s::from(%s)' % (ty, re.sub(r'&(\'\w+ )?|[A-Za-z_]\w*::', '', b.params[0][1])), b)
                self.name(b, '%s::%s' % (ty, m) + ('' if len(cs) == 1 else '#%s' % strip_generics(tr).split('::')[-1] if tr and len(cs) <= 3 and m == 'fmt' else '#%d' % i))
        for n, cs in self.free.items():
            for i, b in enumerate(cs):
                if not hasattr(b, 'short'):
                    self.name(b, n if len(cs) == 1 else '%s#%d' % (n, i))
        for name, bs in bodies.items():
            m = re.match(r'^(.*?)::(\{closure#.*|promoted\[\d+\])$', name)
            if m:
                for i, b in enumerate(bs):
                    ps = bodies.get(m.group(1)) or []
                    p = ps[i] if i < len(ps) else (ps[0] if ps else None)
                    b.short = (p.short if p is not None and hasattr(p, 'short') else m.group(1)) + '::' + m.group(2)

    def name(self, b, s):
        b.short = s
        self.by_short[s] = b

    def index(self, name, b):
        if re.search(r'::promoted\[\d+\]$', name) or b.header.startswith('const ') or (not b.params and b.blocks and ' -> ' not in b.header):
            self.consts.setdefault(name, []).append(b)
        if '{closure#' in name:
            if b.params:
                t = parse_ty(b.params[0][1]).strip()
                if t.k == 'closure':
                    self.closures[t.name] = b
            return
        m = re.match(r'^(.*?)<impl at ([^>]*)>::(\w+)$', name)
        if m:
            kind, hdr = self.src.impl_header(m.group(2))
            ty, trait = None, None
            if kind == 'impl':
                h = re.sub(r'\bwhere\b.*$', '', hdr, flags=re.S).strip()
                h = h[4:].strip()
                if h.startswith('<'):
                    h = h[find_close(h, 0) + 1:].strip()
                if ' for ' in h:
                    trait, tytext = h.split(' for ', 1)
                    trait = trait.strip()
                else:
                    tytext = h
                tytext = tytext.strip()
                if '$' not in tytext:
                    ty = self.head(tytext, m.group(1))
            elif kind == 'derive':
                trait, ty = hdr
                if ty == 'NodeData' and m.group(1).startswith('tree'):
                    ty = 'TreeData'
            if ty is None and b.params:
                ty = head_of(parse_ty(b.params[0][1]).strip())
                if trait and trait.startswith('From'):
                    ty = head_of(parse_ty(b.ret))
            self.methods.setdefault((ty, m.group(3)), []).append((trait, b, hdr))
            return
        seg = name.split('::')
        if len(seg) >= 2 and seg[-2] in ('FilterSvg', 'FilterSvgAttrs', 'FilterSvgAttrsMut'):
            self.methods.setdefault((seg[-2], seg[-1]), []).append((None, b, None))
        self.free.setdefault(seg[-1], []).append(b)

    def head(self, tytext, mod):
        t = parse_ty(tytext)
        t = t.strip()
        n = head_of(t)
        if n == 'NodeData' and mod.startswith('tree'):
            n = 'TreeData'
        return n


def head_of(t):
    t = t.strip()
    if t.k == 'adt':
        return t.name
    if t.k in ('slice', 'array'):
        return 'slice'
    if t.k == 'tuple':
        return 'tuple'
    return t.name


ENUMS_STD = {'Option': [('None', 0), ('Some', 1)], 'Result': [('Ok', 1), ('Err', 1)], 'ControlFlow': [('Continue', 1), ('Break', 1)],
             'Ordering': [('Less', 0), ('Equal', 0), ('Greater', 0)]}
# structs of dependencies whose fields are public: (name, sort) in order
EXT_STRUCTS = {'svgtypes::Length': [('num', 'F64'), ('unit', 'int')],
               'Declaration': [('name', 'Seq<char>'), ('value', 'Seq<char>'), ('important', 'bool')],
               'Rule': [('selector', 'X_Selector'), ('declarations', 'Seq<X_Declaration>')],
               'StyleSheet': [('rules', 'Seq<X_Rule>')],
               'Range': [('start', 'int'), ('end', 'int')]}
# tuple structs of dependencies that wrap a vector
EXT_LISTS = {'svgtypes::Path': 'Seq<X_PathSegment>', 'svgtypes::NumberList': 'Seq<F64>', 'svgtypes::LengthList': 'Seq<X_svgtypes_Length>'}


class Ctx:
    """sort mapping, enum tables"""

    def __init__(self, src):
        self.src = src
        self.enums = dict(ENUMS_STD)
        self.fieldless = {}
        for n, vs in src.enums.items():
            if all(k == 0 for _, k in vs):
                self.fieldless[n] = {v: i for i, (v, _) in enumerate(vs)}
            else:
                self.enums[n] = vs
        self.fieldless['NodeType'] = {v: i for i, (v, _) in enumerate(src.enums.get('NodeType', []))}
        self.fieldless['svgtypes::LengthUnit'] = {v: i for i, v in enumerate(['None', 'Em', 'Ex', 'Px', 'In', 'Cm', 'Mm', 'Pt', 'Pc', 'Percent'])}
        self.fieldless['LengthUnit'] = self.fieldless['svgtypes::LengthUnit']
        self.fieldless['roxmltree::NodeType'] = {v: i for i, v in enumerate(['Root', 'Element', 'PI', 'Comment', 'Text'])}
        self.enums['PaintFallback'] = [('None', 0), ('CurrentColor', 0), ('Color', 1)]
        self.enums['svgtypes::PaintFallback'] = self.enums['PaintFallback']
        self.enums['Paint'] = [('None', 0), ('Inherit', 0), ('CurrentColor', 0), ('Color', 1), ('FuncIRI', 2)]
        self.enums['svgtypes::Paint'] = self.enums['Paint']
        self.enums['PseudoClass'] = [('FirstChild', 0), ('Link', 0), ('Visited', 0), ('Hover', 0), ('Active', 0), ('Focus', 0), ('Lang', 1)]
        del self.fieldless['Error']
        self.enums['Error'] = src.enums.get('Error', [])

    def newtype(self, name):
        fs = self.src.structs.get(name)
        return fs is not None and len(fs) == 1 and fs[0][0] == '0'

    def sort(self, ty):
        k = ty.k
        if k == 'ref':
            return self.sort(ty.args[0])
        if k == 'prim':
            if ty.name == 'bool':
                return 'bool'
            if ty.name == 'char':
                return 'char'
            if ty.name == 'str':
                return 'Seq<char>'
            if ty.name in ('f64', 'f32'):
                return 'F64'
            if ty.name == '!':
                return '()'
            return 'int'
        if k == 'tuple':
            if not ty.args:
                return '()'
            return '(' + ', '.join(self.sort(a) for a in ty.args) + (',)' if len(ty.args) == 1 else ')')
        if k in ('slice', 'array'):
            return 'Seq<%s>' % self.sort(ty.args[0])
        if k == 'adt':
            n = ty.name
            if n in ('Node', 'Rc', 'Weak', 'RefCell', 'TreeData'):
                return 'int'
            if n in self.fieldless:
                return 'int'
            if n == 'String':
                return 'Seq<char>'
            if n == 'Vec':
                return 'Seq<%s>' % self.sort(ty.args[0])
            if n == 'Option':
                return 'Option<%s>' % self.sort(ty.args[0])
            if n == 'Result':
                return 'Result<%s, %s>' % (self.sort(ty.args[0]), self.sort(ty.args[1]))
            if n in ('QName', 'QNameRef'):
                return 'QName'
            if n == 'Attributes':
                return 'Seq<Attribute>'
            if n == 'NodeEdge':
                return 'Edge'
            if n == 'Slab':
                return 'IMap<int, int>'
            if n in ('Ancestors', 'PrecedingSiblings', 'FollowingSiblings'):
                return 'Option<int>'
            if n in ('AttributeValue', 'Attribute', 'Error', 'ParserError', 'PaintFallback'):
                return n
            if n == 'svgtypes::PaintFallback':
                return 'PaintFallback'
            if n in ('parser::Link', 'Link'):
                return 'PLink'
            if n in ('Links', 'Document'):
                return 'S' + n
            if n in ('Paint', 'svgtypes::Paint'):
                return 'Paint'
            if n in ('PseudoClass', 'simplecss::PseudoClass'):
                return 'PseudoClass'
            if n == 'XmlNode':
                return 'X_roxmltree_Node'
            return 'X_' + re.sub(r'\W+', '_', n)
        return 'X_' + re.sub(r'\W+', '_', str(ty.name))


def par(t):
    return t if re.match(r'^[\w.\[\]]+$', t) else '(' + t + ')'


def as_int(v):
    if isinstance(v, Term) and re.match(r'^-?\d+$', v.t):
        return int(v.t)
    return None


class Exec:
    def __init__(self, prog, ctx, contracts, lib):
        self.p, self.c, self.contracts, self.lib = prog, ctx, contracts, lib
        self.n = 0
        self.out = Out()
        self.pure = 0
        self.dry = 0
        self.lets = {}
        self.leaves = None
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()
        self.footprint = None
        self.paths = 0
        self.max_paths = 4000
        self.merge, self.merges, self.nomerge, self.tail, self.joins = False, [], set(), False, 0
        self.lazy = {}
        self.collect_back = None
        self.loop_in, self.loop_iters = {}, {}
        self.allocs = 0
        self.top = None
        self.sorts = set()
        self.split, self.split_n, self.split_seen = None, 1, 0

    # ---------------------------------------------------------------- emission
    def fresh(self, base):
        self.n += 1
        return '%s_%d' % (base, self.n)

    def emit(self, text):
        if self.pure:
            raise Unsupported('effect inside a pure expression: ' + text)
        self.out.put(text)

    def let(self, text, sort, base='t', ty=None):
        """name a term"""
        if self.pure or len(text) < 60:
            return Term(text, sort, ty)
        n = self.fresh(base)
        self.lets[n] = text
        self.out.put('let %s = %s;' % (n, text))
        return Term(n, sort, ty)

    def oblige(self, st, cond, label):
        if cond == 'true':
            return
        if self.pure:
            self.pure_obl.append((list(st.conds), cond, label))
            return
        self.out.put('assert(%s);' % cond, self.where(st) + label)

    def where(self, st):
        return ' > '.join(short(f.body) for f in st.frames) + ': '

    # ---------------------------------------------------------------- values
    def term(self, v, sort=None):
        """Verus text of a value"""
        if isinstance(v, Term):
            return v.t
        if isinstance(v, Agg):
            if v.kind == 'tuple':
                if not v.fields:
                    return '()'
                return '(' + ', '.join(self.term(f) for f in v.fields) + (',)' if len(v.fields) == 1 else ')')
            if v.variant is not None:
                if v.kind == 'Option':
                    if v.variant == 'None':
                        if v.sort and v.sort.startswith('Option<') and 'X_T' not in v.sort and 'X_V' not in v.sort and 'X_N' not in v.sort:
                            return 'Option::<%s>::None' % v.sort[7:-1]
                        return 'None'
                    return 'Some(%s)' % self.term(v.fields[0])
                if v.kind == 'Result':
                    return '%s(%s)' % ('Ok' if v.variant == 'Ok' else 'Err', self.term(v.fields[0]))
                en = {'NodeEdge': 'Edge', 'QNameRef': 'QName', 'svgtypes::PaintFallback': 'PaintFallback'}.get(v.kind, v.kind)
                if not v.fields:
                    return '%s::%s' % (en, v.variant)
                return '%s::%s(%s)' % (en, v.variant, ', '.join(self.term(f) for f in v.fields))
            names = v.names or [n for n, _ in self.c.src.structs.get(v.kind, [])]
            vn = {'Link': 'PLink', 'Document': 'SDocument', 'Links': 'SLinks'}.get(v.kind, v.kind)
            if len(names) == len(v.fields):
                return vn + ' { ' + ', '.join('%s: %s' % (n, self.term(f)) for n, f in zip(names, v.fields)) + ' }'
        if isinstance(v, Disc):
            return self.disc_term(v)
        if isinstance(v, Ref):
            return self.term(self.read(self.cur, v.place))
        if isinstance(v, Guard):
            return self.term(self.read(self.cur, v.place))
        raise Unsupported('no term for %r' % (v,))

    def disc_term(self, d):
        v = d.v
        vs = self.variants(d.ty)
        if isinstance(v, Agg):
            return str([x[0] for x in vs].index(v.variant))
        if vs is None:
            return v.t
        t = ''
        for i, (n, _) in enumerate(vs[:-1]):
            t += 'if %s is %s { %dint } else ' % (par(v.t), n, i)
        return '(' + t + '{ %dint })' % (len(vs) - 1)

    def variants(self, ty):
        ty = ty.strip()
        if ty.k == 'adt' and ty.name in self.c.enums:
            return self.c.enums[ty.name]
        return None

    def eq(self, a, b):
        """bool Term for a == b, structurally simplified"""
        a, b = self.force(a), self.force(b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.variant != b.variant:
                return FALSE
            r = TRUE
            for x, y in zip(a.fields, b.fields):
                r = self.land(r, self.eq(x, y))
            return r
        if isinstance(a, Agg) and isinstance(b, Term) and a.variant is not None and not a.fields and a.kind == 'Option':
            return Term('%s is None' % par(b.t), 'bool')
        if isinstance(b, Agg) and isinstance(a, Term) and b.variant is not None and not b.fields and b.kind == 'Option':
            return Term('%s is None' % par(a.t), 'bool')
        ta, tb = self.term(a), self.term(b)
        if ta == tb:
            return TRUE
        if re.match(r'^-?\d+$', ta) and re.match(r'^-?\d+$', tb):
            return FALSE
        if getattr(a, 'sort', None) == 'bool' and tb in ('true', 'false'):
            return a if tb == 'true' else self.lnot(a)
        if getattr(b, 'sort', None) == 'bool' and ta in ('true', 'false'):
            return b if ta == 'true' else self.lnot(b)
        if ' ' in ta and getattr(a, 'sort', None) == 'bool':
            ta, tb = '(%s)' % ta, '(%s)' % tb
        return Term('(%s == %s)' % (ta, tb), 'bool')

    def land(self, a, b):
        if a.t == 'false' or b.t == 'false':
            return FALSE
        if a.t == 'true':
            return b
        if b.t == 'true':
            return a
        return Term('(%s && %s)' % (a.t, b.t), 'bool')

    def lnot(self, a):
        if a.t == 'true':
            return FALSE
        if a.t == 'false':
            return TRUE
        return Term('!%s' % par(a.t), 'bool')

    def force(self, v):
        while isinstance(v, (Ref, Guard)):
            v = self.read(self.cur, v.place)
        return v

    # ---------------------------------------------------------------- places
    def resolve(self, st, pl):
        fr = st.frames[-1]
        key = (fr.fid, pl[1])
        ty = self.local_ty(fr, pl[1])
        place = Place(('s', key), (), ty)
        variant = None
        for pr in pl[2]:
            k = pr[0]
            if k == 'deref':
                v = self.read(st, place)
                ty = ty.args[0] if ty.k == 'ref' else (ty.args[0] if ty.args else ty)
                if isinstance(v, Ref):
                    place = Place(v.place.base, v.place.projs, ty)
                elif isinstance(v, Guard):
                    raise Unsupported('deref of a guard')
                else:
                    place = Place(place.base, place.projs, ty)
            elif k == 'field':
                fty = parse_ty(pr[2])
                if ty.k == 'adt' and variant is None and self.c.newtype(ty.name):
                    place = Place(place.base, place.projs, fty)       # transparent
                elif variant is not None:
                    place = Place(place.base, place.projs[:-1] + (('v', variant, ty), ('f', pr[1], ty, fty)), fty)
                else:
                    place = Place(place.base, place.projs + (('f', pr[1], ty, fty),), fty)
                ty = fty
                variant = None
            elif k == 'variant':
                variant = pr[1]
                place = Place(place.base, place.projs + (('v', variant, ty),), ty)
            elif k == 'index':
                iv = st.store[(fr.fid, pr[1])]
                ty = ty.strip().args[0]
                place = Place(place.base, place.projs + (('i', self.term(iv), ty),), ty)
            elif k == 'const_index':
                ty = ty.strip().args[0]
                if pr[2]:
                    raise Unsupported('index from end')
                place = Place(place.base, place.projs + (('i', str(pr[1]), ty),), ty)
        return place

    def local_ty(self, fr, n):
        return parse_ty(fr.body.locals[n])

    def read(self, st, place):
        self.cur = st
        b, projs = place.base, list(place.projs)
        if b[0] == 's':
            if b[1] not in st.store:
                raise Unsupported('read of an undefined local %r' % (b[1],))
            v = st.store[b[1]]
        else:
            v, projs = self.read_heap(st, b[1], projs)
        i = 0
        while i < len(projs):
            v = self.proj(st, v, projs[i], projs, i)
            i += 1
        return v

    def heap_field(self, projs):
        """first projections of a heap place -> (field name, rest) or None for the whole node"""
        if not projs:
            return None, projs
        assert projs[0][0] == 'f', projs
        fs = [n for n, _ in self.c.src.structs['TreeData']]
        n = fs[projs[0][1]]
        if n in TREE_FIELDS:
            return n, projs[1:]
        if n == 'data':
            if len(projs) == 1:
                return 'data', []
            fs2 = [x for x, _ in self.c.src.structs['NodeData']]
            n2 = fs2[projs[1][1]]
            if n2 not in DATA_FIELDS:
                raise Unsupported('unknown node field ' + n2)
            return n2, projs[2:]
        raise Unsupported('unknown tree field ' + n)

    def read_heap(self, st, node, projs):
        n, rest = self.heap_field(projs)
        if n is None:
            d, _ = self.read_heap(st, node, [('f', [x for x, _ in self.c.src.structs['TreeData']].index('data'))])
            fs = []
            for x, _ in self.c.src.structs['TreeData']:
                fs.append(d if x == 'data' else Term('%s.%s[%s]' % (st.heap, x, node), HEAP_SORT[x]))
            return Agg('TreeData', None, fs), rest
        if n == 'data':
            fs = []
            for x, _ in self.c.src.structs['NodeData']:
                if x not in DATA_FIELDS:
                    raise Unsupported('unknown node field ' + x)
                fs.append(Term('%s.%s[%s]' % (st.heap, x, node), HEAP_SORT[x]))
            return Agg('NodeData', None, fs), rest
        return Term('%s.%s[%s]' % (st.heap, n, node), HEAP_SORT[n]), rest

    def proj(self, st, v, pr, projs=None, i=0):
        if isinstance(v, (Ref, Guard)):
            v = self.read(st, v.place)
        k = pr[0]
        if k == 'v':
            # variant downcast: must be known (or refine)
            if isinstance(v, Agg):
                if v.variant != pr[1]:
                    raise Unsupported('dead variant projection')
                return v
            return self.expand_variant(st, v, pr[1], pr[2])
        if k == 'f':
            idx = pr[1]
            if isinstance(v, Agg):
                return v.fields[idx]
            if isinstance(v, Clo):
                return v.caps[idx]
            ty = pr[2].strip() if len(pr) > 2 and pr[2] is not None else None
            fty = pr[3] if len(pr) > 3 else None
            if ty is not None and ty.k == 'tuple':
                return Term('%s.%d' % (par(v.t), idx), self.c.sort(fty), fty)
            if ty is not None and ty.k == 'adt':
                if self.c.newtype(ty.name):
                    return v
                fs = self.c.src.structs.get(ty.name)
                if fs:
                    return Term('%s.%s' % (par(v.t), fs[idx][0]), self.c.sort(fty), fty)
                if ty.name in EXT_STRUCTS:
                    return Term('%s.%s' % (par(v.t), EXT_STRUCTS[ty.name][idx][0]), self.c.sort(fty), fty)
                if ty.name in EXT_LISTS:
                    return Term('%s.v' % par(v.t), EXT_LISTS[ty.name], fty)
            raise Unsupported('field %r of %r' % (pr, v))
        if k == 'i':
            if isinstance(v, Agg):
                n = as_int(Term(pr[1], 'int'))
                if n is not None:
                    return v.fields[n]
            t = self.term(v)
            return Term('%s[%s]' % (par(t), pr[1]), self.c.sort(pr[2]) if len(pr) > 2 else seq_elem(v.sort), pr[2] if len(pr) > 2 else None)
        raise Unsupported('projection %r' % (pr,))

    def expand_variant(self, st, v, variant, ty):
        """Term known/assumed to be `variant` -> Agg"""
        vs = self.variants(ty)
        if vs is None:
            raise Unsupported('variant %s of %r' % (variant, ty))
        nf = dict(vs)[variant]
        st_ty = ty.strip()
        fields = []
        for j in range(nf):
            fty = self.payload_ty(st_ty, variant, j)
            fields.append(Term('%s->%s_%d' % (par(v.t), variant, j), self.c.sort(fty) if fty else payload_sort(v.sort, variant, j), fty))
        return Agg(st_ty.name, variant, fields, v.sort)

    def payload_ty(self, ty, variant, j):
        if ty.name == 'Option' and ty.args:
            return ty.args[0]
        if ty.name in ('Result', ) and len(ty.args) == 2:
            return ty.args[0 if variant == 'Ok' else 1]
        if ty.name == 'NodeEdge':
            return parse_ty('tree::Node<T>')
        if ty.name in ('QName', 'QNameRef'):
            return parse_ty('names::AttributeId') if variant == 'Id' else parse_ty('String')
        if ty.name == 'AttributeValue':
            m = {'Color': 'svgtypes::Color', 'FuncLink': 'tree::Node<NodeData>', 'Link': 'tree::Node<NodeData>', 'Length': 'svgtypes::Length',
                 'LengthList': 'svgtypes::LengthList', 'Angle': 'svgtypes::Angle', 'Number': 'f64', 'NumberList': 'svgtypes::NumberList',
                 'Path': 'svgtypes::Path', 'Points': 'svgtypes::Points', 'String': 'String', 'Transform': 'svgtypes::Transform',
                 'ViewBox': 'svgtypes::ViewBox', 'AspectRatio': 'svgtypes::AspectRatio'}
            if variant == 'Paint':
                return parse_ty('tree::Node<NodeData>') if j == 0 else parse_ty('std::option::Option<svgtypes::PaintFallback>')
            return parse_ty(m[variant])
        if ty.name in ('PaintFallback', 'svgtypes::PaintFallback', 'Paint', 'svgtypes::Paint') and variant == 'Color':
            return parse_ty('svgtypes::Color')
        if ty.name in ('Paint', 'svgtypes::Paint') and variant == 'FuncIRI':
            return parse_ty('&str') if j == 0 else parse_ty('std::option::Option<svgtypes::PaintFallback>')
        if ty.name == 'ParserError':
            return parse_ty({'DomError': 'error::Error', 'RoXmlError': 'roxmltree::Error'}.get(variant, 'roxmltree::TextPos'))
        return None

    def write(self, st, place, val):
        self.cur = st
        b, projs = place.base, list(place.projs)
        if b[0] == 's':
            if not projs:
                st.store[b[1]] = val
            else:
                old = st.store.get(b[1])
                if isinstance(old, Ref):
                    return self.write(st, Place(old.place.base, old.place.projs + tuple(projs)), val)
                st.store[b[1]] = self.update(st, old, projs, val)
            return
        n, rest = self.heap_field(projs)
        if n is None or n == 'data':
            raise Unsupported('whole-node write')
        if rest:
            old, _ = self.read_heap(st, b[1], projs[:len(projs) - len(rest)])
            val = self.update(st, old, rest, val)
        self.write_field(st, b[1], n, self.term(val))

    def write_field(self, st, node, field, text):
        h = self.fresh('h')
        self.emit('let %s = Heap { %s: %s.%s.insert(%s, %s), ..%s };' % (h, field, st.heap, field, node, text, st.heap))
        st.heap = h

    def update(self, st, old, projs, val):
        if not projs:
            return val
        pr = projs[0]
        if old is None:
            raise Unsupported('partial write to an undefined place')
        if pr[0] == 'v':
            cur = old
            if isinstance(cur, Term):
                cur = self.expand_variant(st, cur, pr[1], pr[2])
            if len(projs) > 1 and projs[1][0] == 'f':
                idx = projs[1][1]
                nf = list(cur.fields)
                nf[idx] = self.update(st, nf[idx], projs[2:], val)
                return Agg(cur.kind, cur.variant, nf, cur.sort, cur.names)
            raise Unsupported('variant write')
        if pr[0] == 'f':
            cur = old
            if isinstance(cur, Term):
                cur = self.expand_struct(cur, pr[2].strip() if len(pr) > 2 and pr[2] is not None else None)
            if isinstance(cur, Ref):
                raise Unsupported('write through nested ref')
            nf = list(cur.fields)
            nf[pr[1]] = self.update(st, nf[pr[1]], projs[1:], val)
            return Agg(cur.kind, cur.variant, nf, cur.sort, cur.names)
        if pr[0] == 'i':
            t = self.term(old)
            elem = Term('%s[%s]' % (par(t), pr[1]), seq_elem(old.sort if isinstance(old, Term) else None), pr[2] if len(pr) > 2 else None)
            nv = self.update(st, elem, projs[1:], val)
            return Term('%s.update(%s, %s)' % (par(t), pr[1], self.term(nv)), old.sort, getattr(old, 'ty', None))
        raise Unsupported('update %r' % (pr,))

    def expand_struct(self, t, ty):
        if ty is None:
            raise Unsupported('struct type unknown')
        if ty.k == 'tuple':
            return Agg('tuple', None, [Term('%s.%d' % (par(t.t), i), self.c.sort(a), a) for i, a in enumerate(ty.args)], t.sort)
        fs = self.c.src.structs.get(ty.name)
        if fs is None:
            raise Unsupported('expand %r' % ty)
        return Agg(ty.name, None, [Term('%s.%s' % (par(t.t), n), STRUCT_SORTS.get((ty.name, n), '?')) for n, _ in fs], t.sort)

    # ---------------------------------------------------------------- operands / rvalues
    def operand(self, st, op):
        k = op[0]
        if k in ('move', 'copy'):
            return self.read(st, self.resolve(st, op[1]))
        if k == 'const':
            return self.const(st, op[1])
        if k == 'fn':
            return FnVal(op[1])
        raise Unsupported('operand %r' % (op,))

    def operand_ty(self, st, op):
        if op[0] in ('move', 'copy'):
            return self.resolve(st, op[1]).ty
        if op[0] == 'const':
            m = re.match(r'^-?\d+_(\w+)$', op[1])
            if m:
                return parse_ty(m.group(1))
        return None

    def const(self, st, s):
        if s in ('true', 'false'):
            return Term(s, 'bool')
        if s == '()':
            return UNIT
        m = re.match(r'^(-?\d+)_(\w+)$', s)
        if m:
            return Term(m.group(1), 'int', parse_ty(m.group(2)))
        m = re.match(r"^'(.*)'$", s, re.S)
        if m:
            return Term(s, 'char')
        if s.startswith('"'):
            lit = rust_unescape(s[1:-1])
            return Term(str_lit(lit), 'Seq<char>')
        if s.startswith('b"'):
            bs = bytes_unescape(s[2:-1])
            return Term('seq![%s]' % ', '.join('%dint' % x for x in bs) if bs else 'Seq::<int>::empty()', 'Seq<int>')
        m = re.match(r'^(-?[\d.]+(?:[eE][-+]?\d+)?)f64$', s)
        if m:
            return Term('f64c(%s)' % f64_code(m.group(1)), 'F64')
        m = re.match(r'^\{(alloc\d+): (.*)\}$', s)
        if m:
            hd = re.match(r'^alloc\d+ \(static: ([\w:]+),', self.p.allocs.get(m.group(1), [''])[0])
            if hd:
                return Term('st_%s()' % hd.group(1).split('::')[-1], self.c.sort(parse_ty(m.group(2))), parse_ty(m.group(2)))
            return Term('glob_' + m.group(1), self.c.sort(parse_ty(m.group(2))), parse_ty(m.group(2)))
        m = re.match(r'^(.*)::promoted\[(\d+)\]$', s)
        if m:
            return self.promoted(st, int(m.group(2)))
        if s == 'Option::<!>::None':
            return Agg('Option', 'None', [], None)
        if re.match(r'^[\w:<>& ]+$', s):
            name = s.split('::')[-1]
            cand = [b for n, bs in self.p.consts.items() for b in bs if n.split('::')[-1] == name]
            if len(cand) == 1:
                return self.eval_const(st, cand[0])
            # unit variants given as constants
            v = self.ctor_value(s, [])
            if v is not None:
                return v
            return Term('constant_%s' % re.sub(r'\W+', '_', s), 'X_const')
        m = re.match(r'^ZeroSized: (\{closure@.*\})$', s)
        if m:
            return Clo(m.group(1), [])
        v = None
        if s.endswith('}') and '{closure@' in s:
            return Clo(s, [])
        m = re.match(r'^(.*?)\((.*)\)$', s)
        if m:
            args = [self.const(st, a) for a in split_top(m.group(2))]
            v = self.ctor_value(m.group(1), args)
            if v is not None:
                return v
        raise Unsupported('constant ' + s)

    def promoted(self, st, n):
        body = st.frames[-1].body
        cands = [b for nm, bs in self.p.consts.items() if nm == '%s::promoted[%d]' % (body.name, n) for b in bs]
        if not cands:
            raise Unsupported('promoted const of ' + body.name)
        if len(cands) > 1:
            # macro-generated siblings: pick the one that follows this body (same ordinal)
            same_named = self.p.bodies[body.name]
            cands = [cands[same_named.index(body)]] if len(cands) == len(same_named) else cands[:1]
        return self.eval_const(st, cands[0])

    def eval_const(self, st, body):
        sub = State()
        sub.heap = st.heap
        f = Frame()
        f.fid, f.body, f.bb, f.dest, f.target, f.loops, f.subst, f.ret_ty = self.fresh('c'), body, 0, None, None, [], {}, parse_ty(body.ret)
        sub.frames = [f]
        for s in body.blocks[0][0]:
            self.stmt(sub, s)
        if body.blocks[0][1][0] == 'assert' or body.blocks[0][1][0] == 'goto' or body.blocks[0][1][0] == 'call':
            # small straight-line constant (e.g. (1 << 21) - 1)
            bb = 0
            for _ in range(20):
                t = body.blocks[bb][1]
                if t[0] == 'return':
                    break
                bb = t[-1] if t[0] != 'goto' else t[1]
                if t[0] == 'call':
                    raise Unsupported('call in a constant')
                for s in body.blocks[bb][0]:
                    self.stmt(sub, s)
        v = self.read(sub, Place(('s', (f.fid, 0))))
        # values of constant frames stay readable
        for k, x in sub.store.items():
            st.store[k] = x
        return v

    def ctor_value(self, path, args):
        """enum variant / tuple struct constructor, from its path text; None if unknown"""
        p = strip_generics(path)
        segs = p.split('::')
        last = segs[-1]
        if len(segs) >= 2:
            en = canon('::'.join(segs[:-1]))
            if en in self.c.fieldless and last in self.c.fieldless[en]:
                return Term(str(self.c.fieldless[en][last]), 'int', parse_ty('::'.join(segs[:-1])))
            if en in self.c.enums and last in dict(self.c.enums[en]):
                kind = en
                sort = None
                if en in ('Option', 'Result', 'ControlFlow'):
                    g = generics_of(path)
                    if g:
                        tys = [parse_ty(x) for x in g]
                        if en == 'Option':
                            sort = 'Option<%s>' % self.c.sort(tys[0])
                        elif en == 'Result' and len(tys) == 2:
                            sort = 'Result<%s, %s>' % (self.c.sort(tys[0]), self.c.sort(tys[1]))
                else:
                    sort = self.c.sort(Ty('adt', en))
                return Agg(kind, last, [self.detach_ref(a) for a in args], sort)
        if len(segs) == 1 and not args and last != 'None' and last in self.c.fieldless['LengthUnit'] and last not in self.c.src.structs:
            return Term(str(self.c.fieldless['LengthUnit'][last]), 'int', parse_ty('svgtypes::LengthUnit'))
        name = canon(p)
        if self.c.newtype(name) and len(args) == 1:
            return args[0]
        if name in EXT_LISTS and len(args) == 1:
            srt = 'X_' + re.sub(r'\W+', '_', name)
            return Term('%s { v: %s }' % (srt, self.term(self.force(args[0]))), srt)
        if name.startswith('svgtypes::Error::'):
            return Term('any_value::<X_svgtypes_Error>(0)', 'X_svgtypes_Error')
        if name in self.c.src.structs and len(self.c.src.structs[name]) == len(args):
            return Agg(name, None, args)
        return None

    def detach_ref(self, v):
        return v

    def rvalue(self, st, rv, dest_ty=None):
        k = rv[0]
        if k == 'use':
            return self.operand(st, rv[1])
        if k == 'ref':
            pl = self.resolve(st, rv[1])
            if pl.base[0] == 'h':
                return Ref(pl, False)
            v = self.read(st, pl)
            if isinstance(v, Agg) and has_guard(v):
                return Ref(pl, False)
            return v
        if k == 'refmut':
            pl = self.resolve(st, rv[1])
            # reborrow of a reference value held in a place: &mut (*_x) resolves already
            return Ref(pl, True)
        if k == 'disc':
            pl = self.resolve(st, rv[1])
            v = self.force(self.read(st, pl))
            return Disc(v, pl.ty)
        if k == 'tuple':
            return Agg('tuple', None, [self.operand(st, o) for o in rv[1]])
        if k == 'array':
            vs = [self.operand(st, o) for o in rv[1]]
            try:
                return Term('seq![%s]' % ', '.join(self.term(v) for v in vs), 'Seq<?>')
            except Unsupported:
                return Agg('array', None, vs)
        if k == 'closure':
            return Clo(rv[1], [self.operand(st, o) for _, o in rv[2]])
        if k == 'struct':
            name = canon(strip_generics(rv[1]))
            if name == 'NodeData' and len(rv[2]) == 6:
                name = 'TreeData'
            fs = self.c.src.structs.get(name)
            vals = dict((n, self.operand(st, o)) for n, o in rv[2])
            if fs and set(vals) == set(n for n, _ in fs):
                return Agg(name, None, [vals[n] for n, _ in fs])
            return Agg(name, None, [self.operand(st, o) for _, o in rv[2]], names=[n for n, _ in rv[2]])
        if k == 'ctor':
            args = [self.operand(st, o) for o in rv[2]]
            v = self.ctor_value(rv[1], args)
            if v is None:
                if not args:
                    return Term('constant_%s' % re.sub(r'\W+', '_', rv[1]), 'X_const')
                raise Unsupported('constructor ' + rv[1])
            return v
        if k == 'cast':
            v = self.operand(st, rv[1])
            if rv[3] == 'PointerCoercion':
                return v
            if rv[3] == 'IntToInt':
                to = parse_ty(rv[2]).name
                frm = self.operand_ty(st, rv[1])
                if isinstance(v, Disc):
                    return v
                if getattr(v, 'sort', None) == 'char':
                    if to in INTMAX and INTMAX[to] >= 0x10ffff:
                        return Term('(%s as int)' % par(self.term(v)), 'int')
                    raise Unsupported('cast of a char to %s' % to)
                if to == 'char':
                    raise Unsupported('cast to char')
                if frm is not None and frm.name in INTMAX and to in INTMAX and INTMAX[to] >= INTMAX[frm.name]:
                    return v
                if frm is not None and (frm.name == 'bool'):
                    return Term('(if %s { 1int } else { 0int })' % self.term(v), 'int')
                if to in INTMAX:
                    return Term('(%s %% %d)' % (par(self.term(v)), INTMAX[to] + 1), 'int')
                return v
            raise Unsupported('cast %r' % (rv,))
        if k == 'bin':
            return self.binop(st, rv)
        if k == 'un':
            v = self.operand(st, rv[2])
            if rv[1] == 'Not':
                if isinstance(v, Term) and v.sort == 'bool':
                    return self.lnot(v)
                raise Unsupported('bitwise not')
            if rv[1] == 'PtrMetadata':
                return Term('(%s.len() as int)' % par(self.term(self.force(v))), 'int')
            raise Unsupported('unop ' + rv[1])
        if k == 'len':
            return Term('(%s.len() as int)' % par(self.term(self.read(st, self.resolve(st, rv[1])))), 'int')
        raise Unsupported('rvalue %r' % (rv,))

    def binop(self, st, rv):
        op = rv[1]
        a, b = self.force(self.operand(st, rv[2])), self.force(self.operand(st, rv[3]))
        if op in ('Eq', 'Ne'):
            if isinstance(a, Disc) and isinstance(b, Disc):
                t = Term('(%s == %s)' % (self.disc_term(a), self.disc_term(b)), 'bool')
                if isinstance(a.v, Agg) and isinstance(b.v, Agg):
                    t = TRUE if a.v.variant == b.v.variant else FALSE
                elif self.variants(a.ty):
                    # variant by variant: keeps payload reasoning simple
                    pass
            else:
                t = self.eq(a, b)
            return t if op == 'Eq' else self.lnot(t)
        ta, tb = self.term(a), self.term(b)
        if a.sort == 'F64' or b.sort == 'F64':
            f = {'Lt': 'f64_lt', 'Le': 'f64_le', 'Gt': 'f64_gt', 'Ge': 'f64_ge', 'Add': 'f64_add', 'Sub': 'f64_sub', 'Mul': 'f64_mul', 'Div': 'f64_div'}[op]
            return Term('%s(%s, %s)' % (f, ta, tb), 'bool' if op in ('Lt', 'Le', 'Gt', 'Ge') else 'F64')
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            s = {'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>='}[op]
            ia, ib = as_int(a), as_int(b)
            if ia is not None and ib is not None:
                return TRUE if eval('%d %s %d' % (ia, s, ib)) else FALSE
            if a.sort == 'char':
                ta, tb = ta + ' as int', tb + ' as int'
            return Term('(%s %s %s)' % (ta, s, tb), 'bool')
        if op.endswith('WithOverflow'):
            s = {'Add': '+', 'Sub': '-', 'Mul': '*'}[op[:3]]
            ty = self.operand_ty(st, rv[2]) or self.operand_ty(st, rv[3])
            t = '(%s %s %s)' % (ta, s, tb)
            if as_int(a) is not None and as_int(b) is not None and not self.pure:
                t = str(eval(t))
            mx = INTMAX.get(ty.strip().name if ty else 'usize')
            if mx is None:
                raise Unsupported('overflow of %r' % ty)
            ov = '(%s < 0 || %s > %d)' % (t, t, mx)
            return Agg('tuple', None, [Term(t, 'int'), Term(ov, 'bool')])
        if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            s = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/', 'Rem': '%'}[op]
            return Term('(%s %s %s)' % (ta, s, tb), 'int')
        if op in ('BitAnd', 'BitOr') and a.sort == 'bool':
            return Term('(%s %s %s)' % (ta, '&&' if op == 'BitAnd' else '||', tb), 'bool')
        if op == 'Shl' and as_int(a) is not None and as_int(b) is not None:
            return Term(str(as_int(a) << as_int(b)), 'int')
        if op == 'Shr' and as_int(b) is not None:
            return Term('(%s / %d)' % (ta, 1 << as_int(b)), 'int')
        if op == 'BitAnd' and as_int(b) is not None and (as_int(b) & (as_int(b) + 1)) == 0:
            return Term('(%s %% %d)' % (ta, as_int(b) + 1), 'int')
        if op in ('BitAnd', 'Shr', 'Shl', 'BitOr', 'BitXor'):
            return Term('bits_%s(%s, %s)' % (op.lower(), ta, tb), 'int')
        raise Unsupported('binop ' + op)

    # ---------------------------------------------------------------- statements
    def stmt(self, st, s):
        if s[0] != 'assign':
            raise Unsupported(str(s[1]))
        if s[2][0] == 'unsupported':
            raise Unsupported(s[2][1])
        v = self.rvalue(st, s[2])
        self.assign(st, s[1], v)

    def assign(self, st, dest, v):
        pl = self.resolve_dest(st, dest)
        if isinstance(v, Term) and not self.pure and len(v.t) > 120:
            v = self.let(v.t, v.sort, 't', v.ty)
        self.write(st, pl, v)

    def resolve_dest(self, st, dest):
        if not dest[2]:
            fr = st.frames[-1]
            return Place(('s', (fr.fid, dest[1])), (), self.local_ty(fr, dest[1]))
        return self.resolve(st, dest)

    # ---------------------------------------------------------------- running
    def run(self, st):
        """runs to the end of the base frame on every path"""
        while True:
            fr = st.frames[-1]
            body = fr.body
            if fr.bb not in body.blocks:
                raise Unsupported('missing block')
            if self.merges:
                fid, j, depth, got = self.merges[-1]
                if fr.fid == fid and fr.bb == j and len(st.frames) == depth:
                    self.joins += 1
                    got.append((st, self.joins))
                    self.out.put('/*join %d*/' % self.joins)
                    self.tail = True
                    return
            # loops
            loops = self.loops_of(body)
            cb = self.collect_back
            if cb is not None and cb[3] == fr.fid and cb[1] == len(st.frames) and fr.bb not in loops[cb[0]]:
                return      # looking for the effect of one loop only: this path has left it
            fr.loops = [l for l in fr.loops if fr.bb in loops[l[0]]]
            if fr.bb in loops:
                hit = [l for l in fr.loops if l[0] == fr.bb]
                if hit:
                    self.back_edge(st, hit[0])
                    return
                if self.enter_loop(st, fr.bb):
                    return
            stmts, term = body.blocks[fr.bb]
            for s in stmts:
                try:
                    self.stmt(st, s)
                except NeedVariant as nv:
                    raise Unsupported('variant needed in a statement')
            if term is None or term[0] == 'unsupported':
                raise Unsupported('terminator %r' % (term,))
            snapshot = st.copy()
            mark = len(self.out.lines)
            try:
                if self.terminator(st, term):
                    return
            except NeedVariant as nv:
                del self.out.lines[mark:]
                self.fork_variant(snapshot, nv)
                return
            except NeedBool as nb:
                del self.out.lines[mark:]
                self.fork_bool(snapshot, nb.text)
                return

    def run_term(self, st):
        """re-executes only the terminator of the current block, then goes on"""
        fr = st.frames[-1]
        term = fr.body.blocks[fr.bb][1]
        snapshot = st.copy()
        mark = len(self.out.lines)
        try:
            if self.terminator(st, term):
                return
        except NeedVariant as nv:
            del self.out.lines[mark:]
            self.fork_variant(snapshot, nv)
            return
        except NeedBool as nb:
            del self.out.lines[mark:]
            self.fork_bool(snapshot, nb.text)
            return
        self.run(st)

    def count_path(self):
        self.paths += 1
        if self.paths > self.max_paths:
            raise Unsupported('too many paths')

    def fork_variant(self, st, nv):
        arms = []
        for n, _ in nv.variants:
            s2 = st.copy()
            s2.known[nv.term] = n
            cond = '%s is %s' % (par(nv.term), n)
            s2.conds.append(cond)
            arms.append((cond, s2))
        self.fork(st, arms)

    def fork_bool(self, st, text):
        arms = []
        for val in (True, False):
            s2 = st.copy()
            s2.known[text] = val
            cond = text if val else '!%s' % par(text)
            s2.conds.append(cond)
            arms.append((cond, s2))
        self.fork(st, arms)

    def fork(self, st, arms, go=None):
        """runs every arm; with merging on, the arms meet again at the join block and the rest is executed once"""
        go = go or self.run_term
        j = self.join_of(st)
        if j is not None:
            mark, ind, n, paths = len(self.out.lines), self.out.ind, len(self.merges), self.paths
            try:
                return self.fork_merged(st, [(c, s.copy()) for c, s in arms], j, go)
            except CannotMerge as e:
                if e.site != (st.frames[-1].fid, st.frames[-1].bb):
                    raise
                del self.out.lines[mark:]
                del self.merges[n:]
                self.out.ind, self.paths = ind, paths
                self.nomerge.add((st.frames[-1].body, st.frames[-1].bb))
        for i, (cond, s2) in enumerate(arms):
            if not self.pure:
                self.arm_head(i, len(arms), cond)
            self.count_path()
            self.tail = False
            go(s2)
            if not self.pure:
                self.arm_end()
        if not self.pure:
            self.out.put('}')
            self.tail = bool(self.merges)

    def arm_head(self, i, n, cond):
        if i == 0:
            self.out.put('if %s {' % cond)
        elif i < n - 1:
            self.out.put('} else if %s {' % cond)
        else:
            self.out.put('} else {')
        self.out.ind += 1

    def arm_end(self):
        if self.merges and not self.tail:
            # this path is over: it does not reach the join
            self.out.put('/*over*/')
        self.out.ind -= 1

    def join_of(self, st):
        """the block where the arms of a fork here meet again, if they are to be merged"""
        if not self.merge or self.pure:
            return None
        fr = st.frames[-1]
        if (fr.body, fr.bb) in self.nomerge:
            return None
        j = self.postdom(fr.body).get(fr.bb)
        t = fr.body.blocks[fr.bb][1]
        if j is not None and t[0] == 'call' and 'Try>::branch' in str(t):
            # the arms of `?` are told apart in the next block
            j = self.postdom(fr.body).get(j)
        if j is None or (len(st.frames) == 1 and fr.body.blocks[j][1][0] == 'return'):
            return None
        for h, blocks in self.loops_of(fr.body).items():
            if fr.bb in blocks and j not in blocks:
                return None
        return j

    def postdom(self, body):
        """immediate postdominators, not counting paths that panic"""
        if hasattr(body, 'pdom_cache'):
            return body.pdom_cache
        succ = {b: [x for x in succs(t) if x not in body.cleanup] for b, (s, t) in body.blocks.items() if b not in body.cleanup}
        ends = [b for b, (s, t) in body.blocks.items() if b in succ and t and t[0] == 'return']
        # blocks that can reach a return
        live = set(ends)
        grew = True
        while grew:
            grew = False
            for b, ss in succ.items():
                if b not in live and any(x in live for x in ss):
                    live.add(b)
                    grew = True
        full = frozenset(live)
        pd = {b: (frozenset([b]) if b in ends else full) for b in live}
        grew = True
        while grew:
            grew = False
            for b in live:
                if b in ends:
                    continue
                ss = [pd[x] for x in succ[b] if x in live]
                n = frozenset([b]).union(frozenset.intersection(*ss))
                if n != pd[b]:
                    pd[b] = n
                    grew = True
        out = {}
        for b in live:
            strict = pd[b] - {b}
            for x in strict:
                if pd[x] >= strict:
                    out[b] = x
        body.pdom_cache = out
        return out

    def fork_merged(self, st, arms, j, go):
        fr = st.frames[-1]
        site = (fr.fid, fr.bb)
        ctx = (fr.fid, j, len(st.frames), [])
        mark = len(self.out.lines)
        self.merges.append(ctx)
        for i, (cond, s2) in enumerate(arms):
            self.arm_head(i, len(arms), cond)
            self.count_path()
            self.tail = False
            go(s2)
            self.arm_end()
        self.out.put('}')
        self.merges.pop()
        got = ctx[3]
        if not got:
            self.close_merge(mark, len(ctx and self.merges), None, [])
            self.tail = False
            return
        vars_ = []
        m = self.merge_states(st, [s for s, _ in got], vars_, site)
        self.close_merge(mark, len(self.merges), vars_, [i for _, i in got])
        self.tail = False
        self.run(m)

    def close_merge(self, mark, depth, vars_, ids):
        """fills in what each arm hands to the join"""
        L = self.out.lines
        for k in range(mark, len(L)):
            t, lab = L[k]
            w = t.strip()
            ind = t[:len(t) - len(t.lstrip())]
            if w == '/*over*/':
                if vars_:
                    L[k] = (ind + 'assume(false); (%s)' % ', '.join('any_value(0)' for _ in vars_) if len(vars_) > 1 else ind + 'assume(false); any_value(0)', lab)
                else:
                    L[k] = (ind + 'assume(false);', lab)
            elif w.startswith('/*join '):
                n = int(w[7:-2])
                if n in ids and vars_:
                    i = ids.index(n)
                    vs = [v[2][i] for v in vars_]
                    L[k] = (ind + ('(%s)' % ', '.join(vs) if len(vs) > 1 else vs[0]), lab)
                elif n in ids:
                    L[k] = (ind + '/*joined*/', lab)
        if vars_:
            t, lab = L[mark]
            ind = t[:len(t) - len(t.lstrip())]
            ns, ss = [v[0] for v in vars_], [v[1] for v in vars_]
            head = 'let (%s): (%s) = ' % (', '.join(ns), ', '.join(ss)) if len(ns) > 1 else 'let %s: %s = ' % (ns[0], ss[0])
            L[mark] = (ind + head + t.lstrip(), lab)
            t, lab = L[-1]
            L[-1] = (t + ';', lab)

    def merge_states(self, st, states, vars_, site):
        m = states[0].copy()
        m.conds = list(st.conds)
        if len(states) == 1 and False:
            return m
        for s in states[1:]:
            if [g for g in s.guards] != [g for g in m.guards]:
                raise CannotMerge(site)
        m.known = {k: v for k, v in m.known.items() if all(s.known.get(k, '?') == v for s in states[1:])}
        if len(states) == 1:
            # names defined inside the arm are not in scope after it
            m.known = {k: v for k, v in m.known.items() if k in st.known}
        memo = {}

        def var(texts, sort, base):
            key = (tuple(texts), sort)
            if key not in memo:
                n = self.fresh(base)
                vars_.append((n, sort, list(texts)))
                memo[key] = n
            return memo[key]
        heaps = [s.heap for s in states]
        if any(h != st.heap for h in heaps):
            m.heap = var(heaps, 'Heap', 'h')
        for k in list(m.store):
            if any(k not in s.store for s in states):
                del m.store[k]
                continue
            vs = [s.store[k] for s in states]
            if k in st.store and all(same(v, st.store[k]) for v in vs):
                continue
            v = self.merge_vals(vs, var)
            if v is None:
                del m.store[k]
            else:
                m.store[k] = v
        return m

    def merge_vals(self, vs, var):
        v = vs[0]
        if isinstance(v, Agg) and all(isinstance(x, Agg) and x.kind == v.kind and x.variant == v.variant and len(x.fields) == len(v.fields) for x in vs):
            fs = []
            for i in range(len(v.fields)):
                f = self.merge_vals([x.fields[i] for x in vs], var)
                if f is None:
                    break
                fs.append(f)
            else:
                return Agg(v.kind, v.variant, fs, v.sort, v.names)
            if v.variant is None:
                return None
        if all(isinstance(x, Term) and x.t == v.t for x in vs) and not re.search(r'_\d+\b', v.t):
            return v
        if any(isinstance(x, (Guard, Clo, FnVal, Ref)) for x in vs):
            if all(same(x, v) for x in vs) and not self.local_names(v):
                return v
            return None
        ts, sort = [], None
        mark = len(self.out.lines)
        for x in vs:
            try:
                ss = self.guess_sort(x) if not isinstance(x, Disc) else None
                if isinstance(x, Disc):
                    return None
                if sort is None or '?' in sort:
                    sort = ss
                ts.append(self.term(x))
            except (Unsupported, KeyError, AttributeError):
                return None
        if len(self.out.lines) != mark:
            del self.out.lines[mark:]
            return None
        if not sort or '?' in sort:
            return None
        ty = next((x.ty for x in vs if getattr(x, 'ty', None) is not None), None)
        return Term(var(ts, sort, 'j'), sort, ty)

    def local_names(self, v):
        return re.search(r'_\d+\b', repr(v)) is not None

    def refine(self, st, v, ty):
        """value of an enum type -> Agg (forks if the variant is unknown)"""
        v = self.force(v)
        if isinstance(v, Agg):
            return v
        vs = self.variants(ty)
        if vs is None:
            raise Unsupported('refine %r' % ty)
        n = st.known.get(v.t)
        if n is None:
            raise NeedVariant(v.t, ty, vs)
        return self.expand_variant(st, v, n, ty)

    def decide(self, st, v):
        v = self.force(v)
        if v.t == 'true':
            return True
        if v.t == 'false':
            return False
        if v.t in st.known:
            return st.known[v.t]
        m = re.match(r'^!\((.*)\)$', v.t) or re.match(r'^!([\w.\[\]]+)$', v.t)
        if m and m.group(1) in st.known and find_ok(m.group(1)):
            return not st.known[m.group(1)]
        raise NeedBool(v.t)

    def terminator(self, st, term):
        """executes a terminator; returns True if the path ended inside"""
        fr = st.frames[-1]
        k = term[0]
        if k == 'goto':
            fr.bb = term[1]
            return False
        if k == 'return':
            return self.do_return(st)
        if k == 'unreachable':
            # the compiler vouches for it: an enum has no other variant
            return True
        if k == 'drop':
            pl = self.resolve(st, term[1])
            try:
                v = self.read(st, pl)
            except Unsupported:
                v = None
            self.drop_value(st, v)
            if v is not None and not pl.projs and pl.base[0] == 's':
                st.store.pop(pl.base[1], None)
            fr.bb = term[2]
            return False
        if k == 'assert':
            v = self.operand(st, term[1])
            cond = v if term[2] else self.lnot(v)
            msg = term[3].strip('"')
            if 'overflow' in msg and self.assume_no_overflow(st, msg):
                self.assumed.add('machine arithmetic: no usize overflow in ' + short(fr.body))
                self.assume(st, cond.t)
            else:
                self.oblige(st, cond.t, 'no panic: ' + msg)
                self.assume(st, cond.t)
            fr.bb = term[5]
            return False
        if k == 'switch':
            v = self.force(self.operand(st, term[1]))
            return self.switch(st, v, term[2])
        if k == 'call':
            return self.call(st, term)
        raise Unsupported('terminator ' + k)

    def assume_no_overflow(self, st, msg):
        return '+' in msg and any(o in short(st.frames[-1].body) for o in ('_drain', 'collect_text', 'prepare_text_children', 'uses_count', 'Traverse'))

    def assume(self, st, text):
        if text == 'true' or self.pure:
            return
        self.out.put('assume(%s);' % text)

    def switch(self, st, v, arms):
        fr = st.frames[-1]
        if isinstance(v, Disc):
            inner = self.force(v.v)
            vs = self.variants(v.ty)
            if vs is not None:
                ex = [k for k, _ in arms if k is not None]
                other = [b for k, b in arms if k is None]
                if isinstance(inner, Term) and inner.t not in st.known and other and len(ex) <= 3 and len(vs) - len(ex) >= 3 and fr.body.blocks[other[0]][1][0] != 'unreachable':
                    # a few variants against the rest
                    for k, b in arms:
                        if k is not None and self.decide(st, Term('%s is %s' % (par(inner.t), vs[k][0]), 'bool')):
                            st.known[inner.t] = vs[k][0]
                            fr.bb = b
                            return False
                    fr.bb = other[0]
                    return False
                a = self.refine(st, inner, v.ty)
                idx = [n for n, _ in vs].index(a.variant)
                for k, b in arms:
                    if k == idx or k is None:
                        fr.bb = b
                        return False
                raise Unsupported('switch')
            v = inner
            if not isinstance(v, Term):
                raise Unsupported('discriminant of %r' % (v,))
        if v.sort == 'bool':
            d = self.decide(st, v)
            for k, b in arms:
                if k is None or k == (1 if d else 0):
                    fr.bb = b
                    return False
        i = as_int(v)
        if i is not None:
            for k, b in arms:
                if k is None or k == i:
                    fr.bb = b
                    return False
        # integer / char / fieldless enum: fork over the arms, grouping equal targets
        known = st.known.get('=' + v.t)
        if known is not None and known[0] == 'val':
            for k, b in arms:
                if k is None or k == known[1]:
                    fr.bb = b
                    return False
        neg = known[1] if known is not None else frozenset()
        groups = {}
        order = []
        for k, b in arms:
            if k is not None and k in neg:
                continue
            if b not in groups:
                groups[b] = []
                order.append(b)
            groups[b].append(k)
        explicit = [k for k, _ in arms if k is not None]

        def lit(k):
            return "'\\u{%x}'" % k if v.sort == 'char' else str(k)
        first = True
        live = []
        for b in order:
            ks = groups[b]
            t = fr.body.blocks.get(b)
            if t and not t[0] and t[1] and t[1][0] == 'unreachable':
                continue
            live.append((b, ks))
        only = None
        if self.split and v.t == self.split[0] and len(live) > 4 and not self.pure and not self.dry:
            self.split_n = max(self.split_n, len(live))
            only = self.split[1]
        todo = []
        for i, (b, ks) in enumerate(live):
            s2 = st.copy()
            if None in ks:
                cond = ' && '.join('%s != %s' % (v.t, lit(k)) for k in explicit if k not in ks) or 'true'
                s2.known['=' + v.t] = ('not', frozenset(neg) | frozenset(k for k in explicit if k not in ks))
            else:
                cond = ' || '.join('%s == %s' % (v.t, lit(k)) for k in ks)
                if len(ks) == 1:
                    s2.known['=' + v.t] = ('val', ks[0])
            s2.conds.append('(' + cond + ')')
            s2.frames[-1].bb = b
            # the compiler vouches that there is no other value
            s2.given = cond if i == len(live) - 1 and cond != 'true' and None not in ks and not any(None in x for _, x in live) else None
            s2.arm = i
            todo.append((cond, s2))
        if len(todo) == 1:
            s2 = todo[0][1]
            if not self.pure and s2.given:
                self.out.put('assume(%s);' % s2.given)
            self.run(s2)
            return True

        def go(s2):
            if not self.pure and s2.given:
                self.out.put('assume(%s);' % s2.given)
            if only is None or only == s2.arm:
                self.run(s2)
        if todo:
            self.fork(st, todo, go)
        return True

    # ---------------------------------------------------------------- drops
    def drop_value(self, st, v):
        if v is None:
            return
        if isinstance(v, Guard):
            st.guards = [g for g in st.guards if g[0] != v.bid]
        elif isinstance(v, Agg):
            for f in v.fields:
                self.drop_value(st, f)
        elif isinstance(v, Clo):
            for f in v.caps:
                if isinstance(f, Guard):
                    self.drop_value(st, f)

    # ---------------------------------------------------------------- guards
    def borrow(self, st, node, mut, what):
        t = self.term(node)
        fp = self.footprint
        if fp is not None and fp not in ('all_mut',):
            if fp == 'all_shared':
                if mut:
                    self.oblige(st, 'false', what + ': borrow footprint of the contract')
            else:
                alts = []
                for kind, e in fp:
                    if kind == 'mut' or not mut:
                        alts.append('%s == Some(%s)' % (e, t))
                # a node made by this call is nobody else's
                if self.allocs:
                    alts.append('!h0.allocated[%s]' % t)
                self.oblige(st, ' || '.join(alts) if alts else 'false', what + ': inside the declared borrow footprint')
        for bid, gn, gm in st.guards:
            if mut or gm:
                if gn == t:
                    self.oblige(st, 'false', what + ': already borrowed')
                else:
                    self.oblige(st, '%s != %s' % (t, gn), what + ': not already borrowed')
        bid = self.fresh('b')
        st.guards.append((bid, t, mut))
        return Guard(bid, Place(('h', t), (), parse_ty('tree::NodeData<T>')), mut)

    # ---------------------------------------------------------------- calls
    def call(self, st, term):
        fr = st.frames[-1]
        dest, callee, ops, target = term[1:]
        args = [self.operand(st, o) for o in ops]
        if target is None:
            # diverging call: a panic
            self.oblige(st, 'false', 'no panic: ' + callee.split('::<')[0].split('::')[-1] + ' reached' + panic_msg(ops))
            return True
        self.cur = st
        res = self.dispatch(st, callee, args, ops, dest, target)
        if res is PUSHED:
            return False
        if res is ENDED:
            return True
        self.assign(st, dest, res)
        st.frames[-1].bb = target
        return False

    def dispatch(self, st, callee, args, ops, dest, target):
        q = parse_callee(callee)
        # contract?
        key, body = self.find(q, args, st, ops)
        if body is not None:
            c = self.contracts.get(key) if self.contracts else None
            if c is not None and not (self.no_contract == key and len(st.frames) == 0):
                return self.apply_contract(st, c, key, args, body, dest)
            return self.push(st, body, args, dest, target)
        return self.lib.call(self, st, q, args, ops, dest, target)

    no_contract = None

    def find(self, q, args, st, ops):
        """-> (key, Body) of a local function, or (None, None)"""
        ty, trait, method = q['type'], q['trait'], q['method']
        if ty is None:
            bs = self.p.free.get(method)
            if bs:
                b = bs[0]
                if len(bs) > 1:
                    b = max(bs, key=lambda x: x.name.endswith(q['path']))
                return short(b), b
            return None, None
        h = head_of(ty)
        if ty.strip().k in ('param', 'closure'):
            return None, None
        if h == 'NodeData' and 'tree::NodeData' in q['text']:
            h = 'TreeData'
        cands = self.p.methods.get((h, method), [])
        if trait and method in ('from', 'into') and not (method == 'from' and h in ('QName', 'QNameRef', 'Attribute', 'AttributeValue')):
            return None, None
        if method == 'from' and cands:
            return self.lib.pick_from(self, h, cands, args, st, ops, q)
        if trait:
            tn = strip_generics(trait).split('::')[-1]
            c2 = [c for c in cands if c[0] and strip_generics(c[0]).split('::')[-1] == tn]
            if not c2 and tn in ('FilterSvg', 'FilterSvgAttrs', 'FilterSvgAttrsMut'):
                c2 = self.p.methods.get((tn, method), [])
            cands = c2
        else:
            c2 = [c for c in cands if c[0] is None]
            cands = c2 or cands
        if len(cands) == 1:
            return short(cands[0][1]), cands[0][1]
        if len(cands) > 1:
            for c in cands:
                if repr(parse_ty(c[1].params[0][1]).strip()) == repr(ty.strip()):
                    return short(c[1]), c[1]
            if trait:
                for c in cands:
                    if c[2] and strip_lt(trait) in strip_lt(str(c[2])):
                        return short(c[1]), c[1]
            raise Unsupported('ambiguous callee ' + q['text'])
        return None, None

    def push(self, st, body, args, dest, target, ret_hook=None):
        if any(f.body is body for f in st.frames):
            raise Unsupported('recursion without a contract: ' + short(body))
        if len(st.frames) > 14:
            raise Unsupported('inlining too deep')
        self.inlined.add(short(body))
        f = Frame()
        f.fid = self.fresh('f')
        f.body, f.bb, f.dest, f.target, f.loops, f.subst = body, 0, dest, target, [], {}
        f.ret_ty = ret_hook
        if len(args) != len(body.params):
            raise Unsupported('arity of ' + body.name)
        st.frames.append(f)
        for (n, _), a in zip(body.params, args):
            st.store[(f.fid, n)] = a
        return PUSHED

    def do_return(self, st):
        fr = st.frames.pop()
        rv = st.store.get((fr.fid, 0), UNIT)
        if not st.frames:
            st.frames.append(fr)
            self.leaf(st, rv)
            return True
        if fr.ret_ty is not None:
            rv = fr.ret_ty(st, rv)
        if fr.dest is not None:
            self.assign(st, fr.dest, rv)
        st.frames[-1].bb = fr.target
        return False

    def leaf(self, st, rv):
        self.leaves(st, rv)

    # ---------------------------------------------------------------- pure evaluation
    def eval_pure(self, st, body, args):
        """inlines a function with no effects into one Term; raises Unsupported otherwise"""
        sub = st.copy()
        sub.conds = []
        f = Frame()
        f.fid, f.body, f.bb, f.dest, f.target, f.loops, f.subst, f.ret_ty = self.fresh('p'), body, 0, None, None, [], {}, None
        sub.frames = [f]
        for (n, _), a in zip(body.params, args):
            sub.store[(f.fid, n)] = a
        res = []
        saved = self.leaves, self.pure, getattr(self, 'pure_obl', None)
        self.pure_obl = []
        self.pure += 1
        self.inlined.add(short(body))

        def leaf(s, rv):
            self.cur = s
            if s.heap != st.heap:
                raise Unsupported('effect in a pure function')
            res.append((list(s.conds), self.force(rv)))
        self.leaves = leaf
        try:
            self.run(sub)
        finally:
            obl = self.pure_obl
            self.leaves, self.pure, self.pure_obl = saved
        self.cur = st
        return res, obl

    def eval_place(self, st, body, args):
        """straight-line closure that returns a reference into its argument"""
        sub = st.copy()
        f = Frame()
        f.fid, f.body, f.bb, f.dest, f.target, f.loops, f.subst, f.ret_ty = self.fresh('p'), body, 0, None, None, [], {}, None
        sub.frames = [f]
        for (n, _), a in zip(body.params, args):
            sub.store[(f.fid, n)] = a
        for _ in range(6):
            stmts, t = body.blocks[f.bb]
            for x in stmts:
                self.stmt(sub, x)
            if t[0] == 'return':
                break
            if t[0] != 'goto':
                raise Unsupported('closure of a guard map')
            f.bb = t[1]
        self.inlined.add(short(body))
        self.cur = st
        return sub.store[(f.fid, 0)]

    def alloc(self, st, v):
        """a new node; v: Agg TreeData"""
        n = self.fresh('node')
        self.allocs += 1
        self.emit('let %s = fresh_node(%s);' % (n, st.heap))
        self.emit('assume(exists|n: int| is_fresh(%s, n));' % st.heap)
        self.assumed.add('an allocation succeeds and returns an address that nothing refers to')
        h = self.fresh('h')
        sets = []
        names = [x for x, _ in self.c.src.structs['TreeData']]
        for f, x in zip(names, v.fields):
            if f == 'data':
                x = self.force(x)
                if not (isinstance(x, Agg) and x.kind == 'NodeData'):
                    raise Unsupported('node data %r' % (x,))
                for g, y in zip([a for a, _ in self.c.src.structs['NodeData']], x.fields):
                    sets.append((g, self.term(self.force(y))))
            else:
                sets.append((f, self.term(self.force(x))))
        sets.append(('allocated', 'true'))
        sets.append(('kids', 'Seq::<int>::empty()'))
        self.emit('let %s = Heap { %s, ..%s };' % (h, ', '.join('%s: %s.%s.insert(%s, %s)' % (f, st.heap, f, n, t) for f, t in sets), st.heap))
        st.heap = h
        return Term(n, 'int', parse_ty('tree::Node<NodeData>'))

    def pure_term(self, st, body, args, sort='bool'):
        res, obl = self.eval_pure(st, body, args)
        for _, o, l in obl:
            pass
        if not res:
            raise Unsupported('no result')
        t = self.term(res[-1][1])
        for conds, v in reversed(res[:-1]):
            c = ' && '.join(conds) or 'true'
            if sort == 'bool':
                tv = self.term(v)
                if tv == 'true':
                    t = '((%s) || %s)' % (c, t)
                    continue
                if tv == 'false':
                    t = '(!(%s) && %s)' % (c, t)
                    continue
            t = '(if %s { %s } else { %s })' % (c, self.term(v), t)
        return Term(t, sort), obl

    def call_closure_pure(self, st, clo, args, sort='bool'):
        """closure value applied to args, as a Term"""
        if isinstance(clo, (Ref, Guard)):
            clo = self.force(clo)
        if isinstance(clo, Clo):
            b = self.p.closures.get(clo.key)
            if b is None:
                raise Unsupported('closure ' + clo.key)
            return self.pure_term(st, b, [clo] + args, sort)
        if isinstance(clo, FnVal):
            b = self.fn_body(clo.path)
            if b is not None:
                return self.pure_term(st, b, args, sort)
        if isinstance(clo, Term) and clo.sort == 'Pred':
            return Term('%s(%s, %s)' % (clo.t, st.heap, ', '.join(self.term(self.force(a)) for a in args)), 'bool'), []
        raise Unsupported('call of %r' % (clo,))

    def fn_body(self, path):
        p = strip_generics(path)
        bs = self.p.bodies.get(p) or self.p.free.get(p.split('::')[-1])
        return bs[0] if bs else None

    # ---------------------------------------------------------------- loops
    def loops_of(self, body):
        if hasattr(body, 'loops_cache'):
            return body.loops_cache
        succ = {}
        for b, (s, t) in body.blocks.items():
            if b in body.cleanup:
                continue
            succ[b] = [x for x in succs(t) if x not in body.cleanup]
        # back edges by DFS
        color, back = {}, []
        stack = [(0, iter(succ.get(0, [])))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in color:
                    color[m] = 1
                    stack.append((m, iter(succ.get(m, []))))
                    break
                elif color[m] == 1:
                    back.append((n, m))
            else:
                color[n] = 2
                stack.pop()
        pred = {}
        for a, bs in succ.items():
            for b in bs:
                pred.setdefault(b, []).append(a)
        loops = {}
        for n, h in back:
            s = loops.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x not in s:
                    s.add(x)
                    work += pred.get(x, [])
        body.loops_cache = loops
        body.loop_order = sorted(loops)
        return loops

    def enter_loop(self, st, head):
        """first arrival at a loop head: cut the loop.  Returns True (all paths handled inside)."""
        fr = st.frames[-1]
        body = fr.body
        depth = len(st.frames)
        spec = self.loop_spec(body, head)
        if self.split and self.split[0] == 'loop%d' % body.loop_order.index(head) and fr.fid == 'f0' and not self.pure and not self.dry:
            # one Verus function per path that reaches this loop
            c = self.split_seen
            self.split_seen += 1
            self.split_n = max(self.split_n, c + 1)
            if c != self.split[1]:
                return True
        hv = {}         # key -> set of leaf paths to havoc;  special key 'heap'
        base = st.copy()
        order = body.loop_order.index(head)
        for attempt in range(8):
            s2 = base.copy()
            names = self.havoc(s2, hv)
            s2.frames[-1].loops = fr.loops + [(head, names, None)]
            backs = []
            saved = (self.collect_back, len(self.out.lines), self.out.ind, self.dry, self.leaves, self.paths)
            lines = self.out.lines
            self.out.lines = []
            self.collect_back = (head, depth, backs, fr.fid)
            self.dry += 1
            self.leaves_saved = self.leaves
            real_leaves = self.leaves
            self.leaves = lambda s, v: None
            try:
                if spec is not None:
                    self.loop_assume(s2, spec, names)
                run = s2.copy()     # s2 stays as it was at the head
                self.run_from_loop(run)
            finally:
                self.collect_back = saved[0]
                self.out.lines = lines
                self.out.ind = saved[2]
                self.dry = saved[3]
                self.leaves = real_leaves
                self.paths = saved[5]
            changed = False
            # temporaries created inside the loop do not survive; compare what existed at the head
            for (bst, conds) in backs:
                if bst.heap != s2.heap and 'heap' not in hv:
                    hv['heap'] = True
                    changed = True
                for k, v in s2.store.items():
                    if k not in bst.store:
                        if k not in hv:
                            hv[k] = {'gone'}
                            changed = True
                        continue
                    if not same(bst.store[k], v):
                        paths = set()
                        diff(v, bst.store[k], (), paths)
                        old = hv.setdefault(k, set())
                        if not paths <= old:
                            old |= paths
                            changed = True
                if [g[:2] for g in bst.guards] != [g[:2] for g in s2.guards]:
                    raise Unsupported('guards differ across a loop iteration')
            if not changed:
                break
        else:
            raise Unsupported('loop havoc set does not stabilise')
        # the real thing
        s2 = base.copy()
        if spec is None and any(isinstance(x, set) for x in hv.values()):
            auto = self.auto_invariant(base, hv, backs, s2)
        else:
            auto = None
        if spec is None and auto is None and hv:
            raise Unsupported('loop %d of %s needs an invariant' % (order, short(body)))
        # entry obligations
        self.loop_in[(fr.fid, order)] = base.heap
        self.loop_iters[(fr.fid, order)] = self.find_iter(base, hv)
        if spec is not None:
            for hint in spec.entry_hints:
                self.bind_loop(base, hint, None)
            self.loop_check(base, spec, 'loop %d invariant holds on entry' % order, base)
        names = self.havoc(s2, hv)
        s2.frames[-1].loops = fr.loops + [(head, names, (spec, auto, s2, order))]
        entry = base
        if spec is not None:
            self.loop_assume(s2, spec, names)
        self.auto_iter_facts(s2, names)
        if auto is not None:
            self.auto_assume(s2, auto, names, base)
        counters = self.counters(base, hv, backs, head) if spec is not None else []
        for text, bound in counters:
            self.out.put('assume(%s && %s);' % (text(s2), bound))
        s2.frames[-1].loops[-1] = (head, names, (spec, auto, s2.copy(), order, base, counters))
        if spec is not None and spec.decreases:
            self.bind_loop(s2, 'let dec_%s_%d = %s;' % (fr.fid, order, spec.decreases), None)
        self.run_from_loop(s2)
        return True

    def run_from_loop(self, st):
        fr = st.frames[-1]
        stmts, term = fr.body.blocks[fr.bb]
        for s in stmts:
            self.stmt(st, s)
        self.run_term(st)

    def havoc(self, st, hv):
        names = {}
        for k, paths in hv.items():
            if k == 'heap':
                h = self.fresh('h')
                self.out.put('let %s: Heap = any_value(%d);' % (h, self.n))
                st.heap = h
                names['heap'] = h
                continue
            if 'gone' in paths:
                st.store.pop(k, None)
                continue
            v = st.store[k]
            for p in sorted(paths, key=len):
                v = self.havoc_at(v, p, names, k)
                if v is None:
                    break
            if v is None:
                st.store.pop(k, None)
            else:
                st.store[k] = v
        return names

    def havoc_at(self, v, path, names, key, full=None):
        full = path if full is None else full
        if not path:
            sort = v.sort
            if isinstance(v, (Guard, Ref, Clo, FnVal, Disc)):
                return None
            if not sort or '?' in sort:
                try:
                    sort = self.guess_sort(v)
                except Unsupported:
                    return None
            n = self.fresh('v')
            self.out.put('let %s: %s = any_value(%d);' % (n, sort, self.n))
            names[(key, full)] = n
            return Term(n, sort, getattr(v, 'ty', None))
        if not isinstance(v, Agg):
            return v
        fs = list(v.fields)
        nf = self.havoc_at(fs[path[0]], path[1:], names, key, full)
        if nf is None:
            return None
        fs[path[0]] = nf
        return Agg(v.kind, v.variant, fs, v.sort, v.names)

    def guess_sort(self, v):
        if isinstance(v, Term):
            if v.sort and '?' not in v.sort:
                return v.sort
        if isinstance(v, Agg):
            if v.kind == 'Option' and v.fields:
                return 'Option<%s>' % self.guess_sort(v.fields[0])
            if v.kind == 'tuple':
                return '(' + ', '.join(self.guess_sort(f) for f in v.fields) + ')'
            if v.kind in ('NodeEdge',):
                return 'Edge'
            if v.sort and '?' not in v.sort:
                return v.sort
        raise Unsupported('sort of %r' % (v,))

    def loop_spec(self, body, head):
        c = self.contracts.get(short(body))
        self.loops_of(body)
        if c is not None and c.loops:
            i = body.loop_order.index(head)
            return c.loops.get(i) if isinstance(c.loops, dict) else (c.loops[i] if i < len(c.loops) else None)
        ls = self.lib.loop_specs.get(short(body))
        if ls:
            i = body.loop_order.index(head)
            return ls.get(i)
        return None

    def bindings(self, st):
        """let-bindings for the source-level variables of the current frame"""
        fr = st.frames[-1]
        out = []
        self.cur = st
        for name, places in fr.body.debug.items():
            for pl in reversed(places):
                if pl is None:
                    continue
                try:
                    v = self.force(self.read(st, self.resolve(st, pl)))
                except (Unsupported, KeyError, AttributeError, AssertionError, IndexError):
                    continue
                nm = 'self_' if name == 'self' else name
                out += self.flatten(nm, v)
                break
        # unnamed iterators and the heap at loop entry
        for (fid, order), h in self.loop_in.items():
            if fid == fr.fid:
                out.append(('hin%d' % order, h, 'Heap'))
        for (fid, order), its in self.loop_iters.items():
            if fid != fr.fid:
                continue
            for k, path in its:
                v = st.store.get(k)
                try:
                    for i in path:
                        v = v.fields[i]
                    if v.kind in ('Iter', 'IterMut'):
                        if v.kind == 'Iter':
                            out.append(('it%d_s' % order, self.term(v.fields[0]), None))
                        t = self.term(v.fields[1])
                        out.append(('it%d_i' % order, t + 'int' if t.isdigit() else t, None))
                    else:
                        out.append(('it%d' % order, self.struct_term(v), None))
                except (Unsupported, AttributeError, IndexError):
                    continue
        return out

    def find_iter(self, st, hv):
        out = []
        for k, paths in hv.items():
            if k == 'heap' or 'gone' in paths:
                continue
            for p in paths:
                v = st.store[k]
                for n in range(len(p) + 1):
                    if isinstance(v, Agg) and v.kind in ('Iter', 'IterMut', 'Children', 'Traverse', 'Descendants'):
                        if (k, p[:n]) not in out:
                            out.append((k, p[:n]))
                        break
                    if n < len(p):
                        if not isinstance(v, Agg):
                            break
                        v = v.fields[p[n]]
        return out

    def flatten(self, nm, v):
        v = self.force(v)
        if isinstance(v, Agg) and v.variant is None and v.kind != 'tuple':
            names = v.names or [n for n, _ in self.c.src.structs.get(v.kind, [])]
            out = []
            for n, f in zip(names, v.fields):
                out += self.flatten(nm + '_' + n, f)
            return out
        if isinstance(v, Agg) and v.kind == 'tuple' and v.fields:
            out = []
            for i, f in enumerate(v.fields):
                out += self.flatten('%s_%d' % (nm, i), f)
            return out
        try:
            t = self.term(v)
            return [(nm, t + 'int' if t.isdigit() else t, getattr(v, 'sort', None))]
        except Unsupported:
            return []

    def bind_loop(self, st, text, label, entry=None):
        b = self.bindings(st)
        used = [x for x in b if re.search(r'\b%s\b' % re.escape(x[0]), text)]
        self.out.put('{')
        self.out.ind += 1
        self.out.put('let h = %s;' % st.heap)
        for n, t, _ in used:
            if n != t:
                self.out.put('let %s = %s;' % (n, t))
        self.out.put(text, label)
        self.out.ind -= 1
        self.out.put('}')

    def loop_check(self, st, spec, label, entry):
        for hint in spec.hints:
            self.bind_loop(st, hint, None)
        for i, inv in enumerate(spec.inv):
            self.bind_loop(st, 'assert(%s);' % inv, self.where(st) + label + ' (%d)' % i)

    def loop_assume(self, st, spec, names):
        b = self.bindings(st)
        for inv in spec.inv:
            used = [x for x in b if re.search(r'\b%s\b' % re.escape(x[0]), inv) and x[0] != x[1]]
            lets = 'let h = %s; ' % st.heap + ''.join('let %s = %s; ' % (n, t) for n, t, _ in used)
            self.out.put('assume({ %s %s });' % (lets, inv))
        for n, t in spec.skolem:
            used = [x for x in b if re.search(r'\b%s\b' % re.escape(x[0]), t) and x[0] != x[1]]
            lets = 'let h = %s; ' % st.heap + ''.join('let %s = %s; ' % (a, x) for a, x, _ in used)
            self.out.put('let %s = { %s %s };' % (n, lets, t))
        for hint in spec.body_hints:
            self.bind_loop(st, hint, None)

    def back_edge(self, st, lp):
        head, names, info = lp
        if self.collect_back is not None and self.collect_back[0] == head and self.collect_back[3] == st.frames[-1].fid and info is None:
            self.collect_back[2].append((st, list(st.conds)))
            return
        if info is None:
            return
        spec, auto, hs, order = info[:4]
        if spec is not None:
            for hint in spec.back_hints:
                self.bind_loop(st, hint, None)
            self.loop_check(st, spec, 'loop %d invariant is preserved' % order, None)
            for text, _ in info[5] if len(info) > 5 else ():
                self.out.put('assert(%s);' % text(st), self.where(st) + 'inferred loop invariant is preserved')
            if spec.decreases:
                fid = st.frames[-1].fid
                # compare measures: evaluate at head state and here
                hb = self.bindings(hs)
                bb = self.bindings(st)
                d0, d1 = spec.decreases, spec.decreases
                l0 = 'let h = %s; ' % hs.heap + ''.join('let %s = %s; ' % (n, t) for n, t, _ in hb if re.search(r'\b%s\b' % n, d0) and n != t)
                l1 = 'let h = %s; ' % st.heap + ''.join('let %s = %s; ' % (n, t) for n, t, _ in bb if re.search(r'\b%s\b' % n, d1) and n != t)
                self.out.put('assert(0 <= { %s %s } < { %s %s });' % (l1, d1, l0, d0), self.where(st) + 'loop %d terminates' % order)
        if auto is not None:
            self.auto_check(st, auto, names, info)

    # effect-free loops over a slice iterator: the strongest invariant is known
    def auto_invariant(self, base, hv, backs, s2):
        if 'heap' in hv:
            return None
        idx = None
        for k, paths in hv.items():
            if 'gone' in paths:
                continue
            v = base.store[k]
            for p in paths:
                leafv = v
                parent = None
                for i in p:
                    parent = leafv
                    leafv = leafv.fields[i]
                if isinstance(parent, Agg) and parent.kind == 'Iter' and p[-1] == 1:
                    if idx is not None:
                        return None
                    idx = (k, p)
                elif isinstance(leafv, Term) and leafv.sort == 'bool' and self.is_flag(base, k):
                    return None
                else:
                    return None
        if idx is None:
            return None
        return {'idx': idx, 'backs': backs, 'nbase': len(base.conds)}

    def counters(self, base, hv, backs, head):
        """integer variables that go up by one on every way round, next to the position of the iterator: they differ from it by a constant"""
        def leaf(st, k, p):
            v = st.store.get(k)
            for i in p:
                v = v.fields[i]
            return v
        its, ints = [], []
        for k, paths in hv.items():
            if k == 'heap' or 'gone' in paths:
                continue
            for p in paths:
                parent, v = (leaf(base, k, p[:-1]) if p else None), leaf(base, k, p)
                if isinstance(parent, Agg) and parent.kind == 'Iter' and p[-1] == 1:
                    its.append((k, p, parent))
                elif isinstance(v, Term) and v.sort == 'int':
                    ints.append((k, p, v))
        out = []
        if len(its) != 1:
            return out
        ik, ip, it = its[0]
        for k, p, v in ints:
            ok = bool(backs)
            for bst, _ in backs:
                dry = [l[1].get((k, p)) for l in bst.frames[-1].loops if l[0] == head]
                try:
                    t = re.sub(r'[()\s]', '', self.expand_lets(self.term(leaf(bst, k, p))))
                except Exception:
                    t = None
                ok = ok and bool(dry) and dry[0] is not None and t in (dry[0] + '+1', '1+' + dry[0])
            if ok:
                v0, i0 = self.term(v), self.term(it.fields[1])
                out.append((lambda st, k=k, p=p, v0=v0, i0=i0: '%s - %s == %s - %s' % (par(self.term(leaf(st, k, p))), par(v0), par(self.term(leaf(st, ik, ip))), par(i0)),
                            '%s.len() <= 0x7fff_ffff_ffff_ffff' % par(self.term(it.fields[0]))))
        return out

    def is_flag(self, st, k):
        return True

    def auto_pred(self, auto, idxvar):
        """condition under which an iteration goes on to the next one, over element number `jj`"""
        alts = []
        for bst, conds in auto['backs']:
            cs = conds[auto['nbase']:]
            hd = bst.frames[-1].loops
            # the fresh index of the dry run
            alts.append((cs, bst))
        return alts

    def auto_assume(self, st, auto, names, base):
        k, p = auto['idx']
        var = names[(k, p)]
        it = base.store[k]
        for i in p[:-1]:
            it = it.fields[i]
        seq, idx0 = self.term(it.fields[0]), self.term(it.fields[1])
        alts = []
        for bst, conds in auto['backs']:
            cs = conds[auto['nbase']:]
            dryvar = None
            for l in bst.frames[-1].loops:
                if l[0] == st.frames[-1].loops[-1][0]:
                    dryvar = l[1].get((k, p))
            txt = ' && '.join(self.expand_lets(c) for c in cs if not re.match(r'^\(?%s (<|>=) ' % re.escape(dryvar or '#'), c)) or 'true'
            txt = re.sub(r'\b%s\b' % re.escape(dryvar), 'jj', txt) if dryvar else txt
            alts.append('(' + txt + ')')
        pred = ' || '.join(alts) if alts else 'false'
        auto['text'] = lambda hi: 'forall|jj: int| #![trigger %s[jj]] %s <= jj < %s ==> (%s)' % (par(seq), idx0, hi, pred)
        auto['lo'] = idx0
        self.out.put('assume(%s <= %s && %s);' % (idx0, var, auto['text'](var)))

    def expand_lets(self, t):
        for _ in range(30):
            t2 = re.sub(r'\b[a-z]+_\d+\b', lambda m: '(' + self.lets[m.group(0)] + ')' if m.group(0) in self.lets else m.group(0), t)
            if t2 == t:
                return t
            t = t2
        return t

    def auto_check(self, st, auto, names, info):
        k, p = auto['idx']
        v = st.store[k]
        for i in p:
            v = v.fields[i]
        self.out.put('assert(%s);' % auto['text'](self.term(v)), self.where(st) + 'inferred loop invariant is preserved')

    def auto_iter_facts(self, st, names):
        for key, n in names.items():
            if key == 'heap':
                continue
            k, p = key
            v = st.store.get(k)
            if v is None or not p:
                continue
            parent = v
            for i in p[:-1]:
                parent = parent.fields[i]
            if isinstance(parent, Agg) and parent.kind == 'Iter' and p[-1] == 1:
                self.out.put('assume(0 <= %s <= %s.len());' % (n, par(self.term(parent.fields[0]))))
            elif isinstance(parent, Agg) and parent.kind == 'IterMut' and p[-1] == 1:
                self.out.put('assume(0 <= %s <= %s.len());' % (n, par(self.term(self.read(st, parent.fields[0].place)))))

    # ---------------------------------------------------------------- contracts
    def apply_contract(self, st, c, key, args, body, dest):
        if c.allocates:
            self.allocs += 1
        self.cur = st
        self.used_contracts.add(key)
        flat = []       # flattened argument texts
        for (pn, kind, sort), a in zip(c.params, args):
            flat.append(self.arg_text(st, kind, sort, a))
        # borrows
        self.check_footprint(st, c, flat)
        sub = dict(zip([p[0] for p in c.params], flat))
        sub['h0'] = st.heap
        if c.pure is not None:
            for i, r in enumerate(c.requires):
                self.oblige(st, subst(r, sub), 'precondition of %s (%d)' % (key, i))
            t = subst(c.pure, sub)
            return self.ret_value(c, t, body)
        if self.pure:
            raise Unsupported('contract with effects in a pure context: ' + key)
        if self.top is c:
            for r in c.rec:
                self.oblige(st, subst(r, sub), 'the recursion goes down')
        fn = 'ct_' + ident(key)
        outs = []
        if c.heap:
            outs.append('heap')
        for (pn, kind, sort) in c.params:
            if kind == 'mut':
                outs.append(pn)
        if c.ret and c.ret != '()':
            outs.append('ret')
        r = self.fresh('r')
        label = self.where(st) + 'precondition of ' + key
        mark = getattr(self.top, 'marks', {}).get(key)
        if mark:
            self.out.put('let %s_h0 = %s;' % (mark[0], st.heap))
            for (pn, kind, sort), t in zip(c.params, flat):
                self.out.put('let %s_%s: %s = %s;' % (mark[0], pn, sort, t))
            for hint in mark[1]:
                self.out.put(hint)
        self.out.put('let %s = %s(%s);' % (r, fn, ', '.join([st.heap] + flat)), label)
        vals = {}
        for i, o in enumerate(outs):
            vals[o] = '%s.%d' % (r, i) if len(outs) > 1 else r
        if c.heap:
            st.heap = self.named(vals['heap'], 'h')
        for (pn, kind, sort), a in zip(c.params, args):
            if kind == 'mut':
                pl = a.place
                self.write(st, pl, self.unflatten(sort, vals[pn], self.read(st, pl)))
        if mark:
            if c.heap:
                self.out.put('let %s_h = %s;' % (mark[0], st.heap))
            for (pn, kind, sort) in c.params:
                if kind == 'mut':
                    self.out.put('let %s_new_%s = %s;' % (mark[0], pn, vals[pn]))
            if 'ret' in vals:
                self.out.put('let %s_ret = %s;' % (mark[0], vals['ret']))
            for hint in mark[2]:
                self.out.put(hint)
        if 'ret' in vals:
            return self.ret_value(c, vals['ret'], body)
        return UNIT

    def named(self, text, base):
        n = self.fresh(base)
        self.out.put('let %s = %s;' % (n, text))
        return n

    def arg_text(self, st, kind, sort, a):
        v = a
        if isinstance(v, Ref) and v.place.base[0] == 'h' and not v.place.projs:
            return v.place.base[1]
        v = self.force(v)
        if sort == 'QName':
            v = self.lib.to_qname(self, v)
        if sort == 'Attribute':
            v = self.lib.to_attribute(self, st, v)
        if sort == 'Pred':
            return self.lib.to_pred(self, st, v)
        if isinstance(v, Agg) and v.variant is None and v.kind in ('Children', 'Traverse', 'Document', 'Links', 'Iter', 'Descendants', 'WriteOptions'):
            return self.struct_term(v)
        return self.term(v)

    def struct_term(self, v):
        names = v.names or [n for n, _ in self.c.src.structs.get(v.kind, [])]
        return 'S%s { %s }' % (v.kind, ', '.join('%s: %s' % (n, self.term(f)) for n, f in zip(names, v.fields)))

    def unflatten(self, sort, text, old):
        if isinstance(old, Agg) and old.variant is None and old.kind in ('Children', 'Traverse', 'Document', 'Links', 'Iter'):
            names = old.names or [n for n, _ in self.c.src.structs.get(old.kind, [])]
            return Agg(old.kind, None, [Term('%s.%s' % (text, n), getattr(f, 'sort', None) or self.guess_sort(f)) for n, f in zip(names, old.fields)], old.sort, old.names)
        return Term(text, sort)

    def ret_value(self, c, t, body):
        ty = parse_ty(body.ret)
        if c.ret and re.match(r'^S[A-Z]\w+$', c.ret) and ty.k == 'adt':
            name = ty.name
            if name == 'Descendants':
                name = 'Traverse'
            fs = self.c.src.structs[name]
            n = t
            if not self.pure and len(t) > 40:
                n = self.named(t, 't')
            srt = STRUCT_SORTS
            return Agg(name, None, [Term('%s.%s' % (n, f), srt.get((name, f), '?')) for f, _ in fs], c.ret)
        return Term(t, c.ret or '()', ty)

    def check_footprint(self, st, c, flat):
        if c.footprint is None:
            return
        sub = dict(zip([p[0] for p in c.params], flat))
        sub['h0'] = st.heap
        # what the callee borrows, this function borrows
        fp = self.footprint
        what = 'borrows of %s inside the declared borrow footprint' % c.key
        if fp is not None and fp != 'all_mut' and c.footprint:
            if fp == 'all_shared':
                if c.footprint == 'all_mut' or (c.footprint != 'all_shared' and any(k == 'mut' for k, _ in c.footprint)):
                    self.oblige(st, 'false', what)
            elif c.footprint in ('all_mut', 'all_shared'):
                self.oblige(st, 'false', what)
            else:
                for kind, e in c.footprint:
                    x = subst(e, sub)
                    alts = ['%s == %s' % (g, x) for k, g in fp if k == 'mut' or kind != 'mut']
                    if self.allocs:
                        alts.append('!h0.allocated[(%s)->0]' % x)
                    if not (re.match(r'^Some\(', x) and any(g == x for k, g in fp if k == 'mut' or kind != 'mut')):
                        self.oblige(st, ' || '.join(['(%s) is None' % x] + alts), what)
        for bid, gn, gm in st.guards:
            if c.footprint == 'all_shared':
                if gm:
                    self.oblige(st, 'false', 'no outstanding mutable borrow when calling ' + c.key)
            elif c.footprint == 'all_mut':
                self.oblige(st, 'false', 'no outstanding borrow when calling ' + c.key)
            else:
                for kind, e in c.footprint:
                    if kind == 'mut' or gm:
                        self.oblige(st, '%s != Some(%s)' % (subst(e, sub), gn), 'no conflicting borrow when calling ' + c.key)


PUSHED, ENDED = object(), object()
STRUCT_SORTS = {('Children', 'next'): 'Option<int>', ('Children', 'next_back'): 'Option<int>', ('Traverse', 'root'): 'int',
                ('Traverse', 'next'): 'Option<Edge>', ('Traverse', 'next_back'): 'Option<Edge>', ('Document', 'root'): 'int',
                ('Document', 'storage'): 'IMap<int, int>', ('Attribute', 'name'): 'QName', ('Attribute', 'value'): 'AttributeValue',
                ('Link', 'attr_id'): 'int', ('Link', 'iri'): 'Seq<char>', ('Link', 'fallback'): 'Option<PaintFallback>', ('Link', 'node'): 'int',
                ('Links', 'list'): 'Seq<PLink>',
                ('WriteOptions', 'use_single_quote'): 'bool', ('WriteOptions', 'indent'): 'X_Indent', ('WriteOptions', 'attributes_indent'): 'X_Indent',
                ('WriteOptions', 'values'): 'X_svgtypes_WriteOptions',
                ('Map', 'key'): 'int', ('Map', 'disps'): 'Seq<(int, int)>', ('Map', 'entries'): 'Seq<(Seq<char>, int)>'}


def diff(a, b, path, out):
    if same(a, b):
        return
    if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.variant == b.variant and len(a.fields) == len(b.fields):
        for i, (x, y) in enumerate(zip(a.fields, b.fields)):
            diff(x, y, path + (i,), out)
        return
    out.add(path)


def succs(t):
    if t is None:
        return []
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]]
    if k == 'drop':
        return [t[2]]
    if k == 'assert':
        return [t[5]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    return []


def has_guard(v):
    if isinstance(v, Guard):
        return True
    if isinstance(v, Agg):
        return any(has_guard(f) for f in v.fields)
    return False


def find_ok(s):
    d = 0
    for c in s:
        if c == '(':
            d += 1
        elif c == ')':
            d -= 1
            if d < 0:
                return False
    return d == 0


def strip_generics(p):
    out, i = '', 0
    while i < len(p):
        if p.startswith('::<', i):
            i = find_close(p, i + 2) + 1
            continue
        if p[i] == '<' and i > 0:
            i = find_close(p, i) + 1
            continue
        out += p[i]
        i += 1
    return out


def generics_of(p):
    m = re.search(r'::<', p)
    if not m:
        return []
    j = find_close(p, m.end() - 1)
    return [x for x in split_top(p[m.end():j]) if not x.startswith("'")]


def strip_lt(s):
    return re.sub(r"'\w+,? ?|\s", '', s).replace('<>', '')


def parse_callee(text):
    """-> {'type': Ty|None, 'trait': str|None, 'method': str, 'text': text, 'path': str, 'gen': [..]}"""
    t = text.strip()
    gen = []
    if t.endswith('>') and '::<' in t:
        # trailing method generics
        i = 0
        last = None
        while i < len(t):
            if t.startswith('::<', i):
                j = find_close(t, i + 2)
                if j == len(t) - 1:
                    last = i
                    break
                i = j + 1
                continue
            if t[i] == '<':
                i = find_close(t, i) + 1
                continue
            i += 1
        if last is not None:
            gen = split_top(t[last + 3:-1])
            t = t[:last]
    r = {'text': text, 'gen': gen, 'path': t, 'trait': None, 'type': None}
    if t.startswith('<'):
        j = find_close(t, 0)
        inner, rest = t[1:j], t[j + 1:]
        k = top_find(inner, ' as ')
        if k is not None:
            r['type'] = parse_ty(inner[:k])
            r['trait'] = inner[k + 4:]
        else:
            r['type'] = parse_ty(inner)
        r['method'] = rest[2:]
        return r
    m = re.match(r'^(.*?)<impl (.*)>::(\w+)$', t)
    if m and '::<impl ' in '::' + t:
        r['type'] = parse_ty(m.group(2))
        r['method'] = m.group(3)
        return r
    # path::Type::<..>::method  or path::function
    k = None
    i = 0
    while i < len(t):
        if t[i] == '<':
            i = find_close(t, i) + 1
            continue
        if t.startswith('::', i):
            k = i
            i += 2
            continue
        i += 1
    if k is None:
        r['method'] = t
        return r
    prefix, method = t[:k], t[k + 2:]
    r['method'] = method
    base = strip_generics(prefix)
    last = base.split('::')[-1]
    if last[:1].isupper():
        r['type'] = parse_ty(re.sub(r'::<', '<', prefix))
    return r


def top_find(s, sub):
    i = 0
    while i < len(s):
        if s.startswith(sub, i):
            return i
        if s[i] in '<([{':
            i = find_close(s, i)
        i += 1
    return None


def subst(text, sub):
    if not sub:
        return text
    return re.sub(r"(?<![\w.])(%s)\b(?!')" % '|'.join(re.escape(k) for k in sorted(sub, key=len, reverse=True)),
                  lambda m: par(sub[m.group(1)]), text)


def ident(key):
    return re.sub(r'\W+', '_', key)


def short(body):
    """readable stable name: Type::method, Type::method{closure}, or module::function"""
    if hasattr(body, 'short'):
        return body.short
    return body.name


def panic_msg(ops):
    for o in ops:
        if o[0] == 'const' and o[1].startswith('"'):
            return ' (' + o[1].strip('"')[:60] + ')'
    return ''


def seq_elem(sort):
    if sort and sort.startswith('Seq<'):
        return sort[4:-1]
    return '?'


def payload_sort(sort, variant, j):
    if sort and sort.startswith('Option<'):
        return sort[7:-1]
    return '?'


def rust_unescape(s):
    return re.sub(r'\\(u\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{2})|.)', lambda m: chr(int(m.group(2), 16)) if m.group(2) else chr(int(m.group(3), 16)) if m.group(3)
                  else {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(1), m.group(1)), s)


def bytes_unescape(s):
    return rust_unescape(s).encode('latin-1')


def str_lit(s):
    if not s:
        return 'Seq::<char>::empty()'
    return 'seq![' + ', '.join("'\\u{%x}'" % ord(c) for c in s) + ']'


def f64_code(s):
    """exact literal as thousandths when possible, else a hash-free symbolic integer"""
    from decimal import Decimal
    d = Decimal(s) * 1000000
    if d == d.to_integral_value():
        return str(int(d))
    return str(int(d)) + '0000001'
