"""Models of the library functions svgdom's MIR calls (std, slab, svgtypes, ...).

Everything here is part of the trusted base: a model states what the called
function does to the abstract state.  A callee without a model makes the
calling function undecidable (reported as such), never silently accepted."""
import re
from rty import parse_ty, canon, Ty
import sym
from sym import (Term, Agg, Ref, Guard, Clo, FnVal, Disc, Place, TRUE, FALSE, UNIT, Unsupported, PUSHED, ENDED,
                 strip_generics, par, as_int, head_of, short, seq_elem, same)

TRANSPARENT_CLONE = True
# callees that only build or print messages: no effect on the document
MESSAGE = re.compile(r'(^|::)(Arguments|fmt::rt|log::|core::fmt|std::fmt|Argument)|^max_level$|^format$|^must_use|__private_api|panic_fmt|Formatter|^<Level as PartialOrd')


class Lib:
    def __init__(self):
        self.loop_specs = {}
        self.uninterp = {}      # name -> signature text, for externals treated as functions
        self.trusted = set()    # models used

    # ------------------------------------------------------------ conversions used by contracts
    def to_qname(self, ex, v):
        v = ex.force(v)
        if isinstance(v, Agg) and v.kind in ('QName', 'QNameRef'):
            return v
        if isinstance(v, Term):
            if v.sort == 'QName':
                return v
            if v.sort == 'int':
                return Agg('QName', 'Id', [v], 'QName')
            if v.sort == 'Seq<char>':
                return Agg('QName', 'Name', [v], 'QName')
        raise Unsupported('conversion of %r to a name' % (v,))

    def to_value(self, ex, v):
        """anything that implements Into<AttributeValue>"""
        v = ex.force(v)
        if isinstance(v, Agg) and v.kind == 'AttributeValue':
            return v
        if isinstance(v, Term):
            if v.sort == 'AttributeValue':
                return v
            if v.sort == 'Seq<char>':
                return Agg('AttributeValue', 'String', [v], 'AttributeValue')
            if v.sort == 'F64':
                return Agg('AttributeValue', 'Number', [v], 'AttributeValue')
            m = re.match(r'^X_svgtypes_(\w+)$', v.sort or '')
            if m and m.group(1) in dict(ex.c.enums['AttributeValue']):
                return Agg('AttributeValue', m.group(1), [v], 'AttributeValue')
        raise Unsupported('conversion of %r to a value' % (v,))

    def to_attribute(self, ex, st, v):
        v = ex.force(v)
        if isinstance(v, Agg) and v.kind == 'Attribute':
            return v
        if isinstance(v, Term) and v.sort == 'Attribute':
            return v
        if isinstance(v, Agg) and v.kind == 'tuple' and len(v.fields) == 2:
            n = self.to_qname(ex, v.fields[0])
            x = ex.force(v.fields[1])
            if isinstance(x, Term) and x.sort == 'int' and x.ty is not None and x.ty.strip().name == 'Node':
                ex.used_contracts.add('Attribute::from#1')
                return Agg('Attribute', None, [n, Term('link_value(%s, %s, None)' % (ex.term(n), x.t), 'AttributeValue')], 'Attribute')
            if isinstance(x, Agg) and x.kind == 'tuple' and len(x.fields) == 2:
                ex.used_contracts.add('Attribute::from#2')
                return Agg('Attribute', None, [n, Agg('AttributeValue', 'Paint', [ex.force(f) for f in x.fields], 'AttributeValue')], 'Attribute')
            ex.used_contracts.add('Attribute::from#0')
            return Agg('Attribute', None, [n, self.to_value(ex, x)], 'Attribute')
        raise Unsupported('conversion of %r to an attribute' % (v,))

    def to_pred(self, ex, st, v):
        v = ex.force(v)
        if isinstance(v, Term) and v.sort == 'Pred':
            return v.t
        if isinstance(v, Clo) and not ex.pure:
            # a name for what the closure answers in any state
            h, n = ex.fresh('h'), ex.fresh('n')
            s2 = st.copy()
            s2.heap = h
            b = ex.p.closures.get(v.key)
            if b is None or len(b.params) != 2:
                raise Unsupported('closure ' + v.key)
            r, obl = ex.call_closure_pure(s2, v, [Term(n, 'int', parse_ty(b.params[1][1]))], 'bool')
            for conds, c, l in obl:
                ex.oblige(st, 'forall|%s: Heap, %s: int| (%s) ==> (%s)' % (h, n, ' && '.join(conds) or 'true', c), 'closure: ' + l)
            p = ex.fresh('p')
            ex.out.put('let %s: Pred = any_value(%d);' % (p, ex.n))
            ex.out.put('assume(forall|%s: Heap, %s: int| #[trigger] pred(%s, %s, %s) == (%s));' % (h, n, p, h, n, r.t))
            return p
        raise Unsupported('predicate %r' % (v,))

    # ------------------------------------------------------------ From impls
    def pick_from(self, ex, h, cands, args, st, ops, q):
        if h in ('QName', 'QNameRef') and getattr(ex.force(args[0]), 'sort', None) == 'QName' and h == 'QNameRef':
            # a generic name argument stands for the QNameRef it converts to
            return None, None
        av = ex.force(args[0])
        if h == 'AttributeValue' and getattr(av, 'sort', None) == 'AttributeValue':
            return None, None
        if h == 'Attribute' and isinstance(av, Agg) and av.kind == 'tuple' and len(av.fields) == 2 and getattr(ex.force(av.fields[0]), 'sort', None) != 'QName':
            return None, None
        if h == 'AttributeValue' and re.search(r'From<[A-Z]>$', q['trait'] or ''):
            sc = [c for c in cands if ex.c.sort(parse_ty(c[1].params[0][1])) == getattr(av, 'sort', None)]
            if len(sc) == 1:
                return short(sc[0][1]), sc[0][1]
        tr = strip_generics(q['trait'] or '')
        m = re.search(r'From<(.*)>$', q['trait'] or '', re.S)
        want = repr(parse_ty(m.group(1))) if m else None
        hits = []
        for c in cands:
            pt = parse_ty(c[1].params[0][1])
            if want is not None and repr(pt) == want:
                hits.append(c)
        if len(hits) >= 1:
            if len(hits) > 1:
                full = q['text']
                hits = [c for c in hits if c[1].params[0][1] in full] or hits
            return short(hits[0][1]), hits[0][1]
        # generic impls
        gen = [c for c in cands if re.search(r'\b[TNV]\b', c[1].params[0][1])]
        if len(gen) == 1:
            return short(gen[0][1]), gen[0][1]
        # a pair whose second part is given exactly
        wt = parse_ty(m.group(1)) if m else None
        if wt is not None and wt.k == 'tuple':
            two = [c for c in gen if parse_ty(c[1].params[0][1]).k == 'tuple' and repr(parse_ty(c[1].params[0][1]).args[1]) == repr(wt.args[1])]
            two = two or [c for c in gen if parse_ty(c[1].params[0][1]).k == 'tuple' and re.match(r'^[A-Z]$', c[1].params[0][1].strip('()').split(',')[-1].strip())]
            if len(two) == 1:
                return short(two[0][1]), two[0][1]
        raise Unsupported('ambiguous ' + q['text'])

    # ------------------------------------------------------------ dispatch
    def call(self, ex, st, q, args, ops, dest, target):
        ty, m = q['type'], q['method']
        h = head_of(ty) if ty is not None else None
        tn = strip_generics(q['trait']).split('::')[-1] if q['trait'] else None
        text = q['text']
        r = self.fmt(ex, st, strip_generics(text), args)
        if r is not None:
            return r
        if MESSAGE.search(strip_generics(text)) or (tn in ('Display', 'Debug') and m == 'fmt'):
            self.trusted.add('message construction and logging')
            return self.opaque(ex, st, dest, 'msg')
        for name in ('t_%s_%s' % (tn, m), 'm_%s_%s' % (h, m), 'm_%s' % m, 'f_%s' % m):
            fn = getattr(self, name.replace('::', '_'), None)
            if fn is not None and not (name.startswith('f_') and ty is not None) and not (name == 'm_%s' % m and tn is not None and not hasattr(self, name)):
                self.trusted.add((tn + '::' if tn else (str(h) + '::' if h else '')) + m)
                return fn(ex, st, q, args, ops, dest, target)
        r = self.external(ex, st, q, args, dest)
        if r is not None:
            return r
        if m == 'parse' and 'impl roxmltree::Document<' in text:
            self.trusted.add('roxmltree::Document::parse')
            return Term('xml_of(%s)' % ex.term(ex.force(args[0])), 'Result<X_roxmltree_Document, X_roxmltree_Error>', ex.resolve_dest(st, dest).ty)
        raise Unsupported('no model for ' + text)

    # ------------------------------------------------------------ format_args!
    def fmt(self, ex, st, text, args):
        m = re.search(r'(^|::)Argument::new_(display|lower_hex)$', text)
        if m:
            v = ex.force(args[0])
            if isinstance(v, Term) and m.group(2) == 'display' and v.sort == 'Seq<char>':
                return Agg('FmtArg', None, [v])
            if isinstance(v, Term) and m.group(2) == 'lower_hex' and v.sort == 'int':
                return Agg('FmtArg', None, [Term('hex_text(%s)' % ex.term(v), 'Seq<char>')])
            return None
        if re.search(r'(^|::)Arguments::(new|from_str)$', text):
            pieces = self.template(ex, args)
            return None if pieces is None else Agg('FmtArgs', None, [Term(pieces, 'Seq<char>')])
        if text in ('format', 'alloc::fmt::format', 'std::fmt::format') and isinstance(ex.force(args[0]), Agg):
            self.trusted.add('format!')
            return ex.force(args[0]).fields[0]
        if re.search(r'(^|::)must_use$', text):
            return args[0]
        return None

    def template(self, ex, args):
        """text built by fmt::Arguments::new(template, args): literals and plain placeholders only"""
        t = ex.force(args[0])
        m = re.match(r'^seq!\[(.*)\]$', t.t) if isinstance(t, Term) and t.sort == 'Seq<int>' else None
        if m is None:
            if len(args) == 1 and isinstance(t, Term) and t.sort == 'Seq<char>':
                return t.t
            return None
        bs = [int(x.strip()[:-3]) for x in m.group(1).split(',')]
        xs = ex.force(args[1]) if len(args) > 1 else None
        fs = list(xs.fields) if isinstance(xs, Agg) else []
        out, i, k = [], 0, 0
        while i < len(bs) and bs[i] != 0:
            b = bs[i]
            if b < 0x80:
                out.append(sym.str_lit(bytes(bs[i + 1:i + 1 + b]).decode()))
                i += 1 + b
            elif b == 0xc0:
                a = ex.force(fs[k]) if k < len(fs) else None
                if not (isinstance(a, Agg) and a.kind == 'FmtArg'):
                    return None
                out.append(ex.term(a.fields[0]))
                k, i = k + 1, i + 1
            else:
                return None
        return ' + '.join(out) if out else 'Seq::<char>::empty()'

    def t_Write_write_fmt(self, ex, st, q, args, ops, dest, target):
        pl, v = self.seq_place(ex, st, args[0])
        a = ex.force(args[1])
        if not (isinstance(a, Agg) and a.kind == 'FmtArgs' and v.sort == 'Seq<int>'):
            raise Unsupported('write_fmt of %r' % (a,))
        ex.write(st, pl, Term('(%s + utf8(%s))' % (ex.term(v), ex.term(a.fields[0])), v.sort, getattr(v, 'ty', None)))
        return Agg('Result', 'Ok', [UNIT], ex.c.sort(ex.resolve_dest(st, dest).ty))

    def opaque(self, ex, st, dest, base='x'):
        ty = ex.resolve_dest(st, dest).ty
        sort = ex.c.sort(ty)
        if sort == '()':
            return UNIT
        if ex.pure:
            raise Unsupported('opaque value in a pure expression')
        n = ex.fresh(base)
        ex.sorts.add(sort)
        ex.out.put('let %s: %s = any_value(%d);' % (n, sort, ex.n))
        return Term(n, sort, ty)

    def external(self, ex, st, q, args, dest):
        """external functions that are deterministic and have no effect: uninterpreted functions"""
        text = q['text']
        name = strip_generics(re.sub(r'^<(.*?) as .*?>::', lambda m: strip_generics(m.group(1)) + '::', text))
        pure = EXTERNAL_PURE.get(name) or EXTERNAL_PURE.get(canon(name))
        if pure is None:
            return None
        ts = [ex.force(a) for a in args]
        ty = ex.resolve_dest(st, dest).ty
        sort = ex.c.sort(ty)
        name = 'ext_' + re.sub(r'\W+', '_', pure)
        sorts = [self.sort_of(ex, t) for t in ts]
        self.uninterp[name] = (sorts, sort)
        ex.sorts.add(sort)
        for s in sorts:
            ex.sorts.add(s)
        self.trusted.add(pure + ' (uninterpreted, no effect, no panic)')
        return Term('%s(%s)' % (name, ', '.join(ex.term(t) for t in ts)), sort, ty)

    def sort_of(self, ex, v):
        if getattr(v, 'sort', None):
            return v.sort
        return ex.guess_sort(v)

    # ------------------------------------------------------------ generic traits
    def t_Clone_clone(self, ex, st, q, args, ops, dest, target):
        return ex.force(args[0])
    t_ToOwned_to_owned = t_Clone_clone

    def t_ToString_to_string(self, ex, st, q, args, ops, dest, target):
        v = ex.force(args[0])
        if getattr(v, 'sort', None) != 'Seq<char>':
            raise Unsupported('no model for ' + q['text'])
        return self.t_Clone_clone(ex, st, q, args, ops, dest, target)

    t_AsRef_as_ref = t_Clone_clone
    t_Borrow_borrow = t_Clone_clone

    def t_PartialEq_eq(self, ex, st, q, args, ops, dest, target):
        a, b = ex.force(args[0]), ex.force(args[1])
        sa = getattr(a, 'sort', None)
        if sa == 'F64':
            return Term('f64_eq(%s, %s)' % (ex.term(a), ex.term(b)), 'bool')
        t = ex.eq(a, b)
        return t

    def t_PartialEq_ne(self, ex, st, q, args, ops, dest, target):
        # the default method: negation of the type's own eq
        key, body = ex.find(dict(q, method='eq'), args, st, ops)
        if body is not None and ex.contracts.get(key) is not None and ex.contracts[key].pure is not None:
            r = ex.apply_contract(st, ex.contracts[key], key, args, body, dest)
            return ex.lnot(r)
        if body is not None:
            return ex.push(st, body, args, dest, target, ret_hook=lambda s, v: ex.lnot(v))
        return ex.lnot(self.t_PartialEq_eq(ex, st, q, args, ops, dest, target))

    def t_Deref_deref(self, ex, st, q, args, ops, dest, target):
        v = args[0]
        while isinstance(v, Ref):
            w = ex.read(st, v.place)
            if isinstance(w, Guard):
                v = w
                break
            if isinstance(w, Ref):
                v = w
                continue
            return v if v.mut or v.place.base[0] == 'h' else w
        if isinstance(v, Guard):
            return Ref(v.place, False)
        if head_of(q['type']) in sym.EXT_LISTS and isinstance(v, Term):
            return Term('%s.v' % par(v.t), sym.EXT_LISTS[head_of(q['type'])])
        return v

    def t_DerefMut_deref_mut(self, ex, st, q, args, ops, dest, target):
        v = args[0]
        if isinstance(v, Ref):
            w = ex.read(st, v.place)
            if isinstance(w, Guard):
                return Ref(w.place, True)
            if isinstance(w, Ref):
                return w
            return v
        if isinstance(v, Guard):
            return Ref(v.place, True)
        raise Unsupported('deref_mut of %r' % (v,))

    def t_Into_into(self, ex, st, q, args, ops, dest, target):
        v = ex.force(args[0])
        ty = ex.resolve_dest(st, dest).ty.strip()
        n = ty.name
        if n == 'Attribute':
            return self.to_attribute(ex, st, v)
        if n in ('QName', 'QNameRef'):
            return self.to_qname(ex, v)
        if n == 'AttributeValue':
            src = q['type'].strip()
            cs = [c for c in ex.p.methods.get(('AttributeValue', 'from'), []) if src.k not in ('param', 'closure') and repr(parse_ty(c[1].params[0][1]).strip()) == repr(src)]
            if len(cs) == 1:
                return ex.push(st, cs[0][1], [args[0]], dest, target)
            return self.to_value(ex, v)
        if n == 'String' or n == 'str':
            return v
        src = q['type'].strip()
        if repr(src) == repr(ty):
            return v
        raise Unsupported('into ' + q['text'])

    def t_From_from(self, ex, st, q, args, ops, dest, target):
        h = head_of(q['type'])
        if h == 'QNameRef' and getattr(ex.force(args[0]), 'sort', None) == 'QName':
            return ex.force(args[0])
        if h == 'AttributeValue' and getattr(ex.force(args[0]), 'sort', None) == 'AttributeValue':
            return ex.force(args[0])
        if h == 'Attribute':
            return self.to_attribute(ex, st, args[0])
        if h == 'PathParser':
            srt = 'Seq<Result<X_PathSegment, X_svgtypes_Error>>'
            self.uninterp['path_tokens'] = (['Seq<char>'], srt)
            return Agg('Iter', None, [Term('path_tokens(%s)' % ex.term(ex.force(args[0])), srt), Term('0', 'int')])
        if h == 'DeclarationTokenizer':
            self.uninterp['css_tokens'] = (['Seq<char>'], 'Seq<X_Declaration>')
            return Agg('Iter', None, [Term('css_tokens(%s)' % ex.term(ex.force(args[0])), 'Seq<X_Declaration>'), Term('0', 'int')])
        if h == 'String' and getattr(ex.force(args[0]), 'sort', None) == 'Seq<char>':
            return ex.force(args[0])
        if h == 'f64':
            return Term('f64_of_int(%s)' % ex.term(ex.force(args[0])), 'F64')
        r = self.external(ex, st, q, args, dest)
        if r is None:
            raise Unsupported('no model for ' + q['text'])
        return r

    def t_IntoIterator_into_iter(self, ex, st, q, args, ops, dest, target):
        v = args[0]
        if isinstance(v, Ref) and v.mut:
            w = ex.force(v)
            if isinstance(w, Term) and (w.sort or '').startswith('Seq<'):
                return Agg('IterMut', None, [v, Term('0', 'int')])
        w = ex.force(v)
        if isinstance(w, Term) and (w.sort or '').startswith('Seq<'):
            return Agg('Iter', None, [w, Term('0', 'int')])
        return w

    # ------------------------------------------------------------ calls of closures
    def closure_call(self, ex, st, q, args, ops, dest, target):
        clo = ex.force(args[0])
        tup = ex.force(args[1])
        xs = list(tup.fields) if isinstance(tup, Agg) else [tup]
        return self.invoke(ex, st, clo, xs, dest, target)

    def invoke(self, ex, st, clo, xs, dest, target, hook=None):
        if isinstance(clo, Clo):
            b = ex.p.closures.get(clo.key)
            if b is None:
                raise Unsupported('closure ' + clo.key)
            return ex.push(st, b, [clo] + xs, dest, target, ret_hook=hook)
        if isinstance(clo, Term) and clo.sort == 'Pred':
            r = Term('pred(%s, %s, %s)' % (clo.t, st.heap, ', '.join(ex.term(ex.force(a)) for a in xs)), 'bool')
            return hook(st, r) if hook else r
        if isinstance(clo, FnVal):
            b = ex.fn_body(clo.path)
            if b is not None:
                return ex.push(st, b, xs, dest, target, ret_hook=hook)
        raise Unsupported('call of %r' % (clo,))
    t_Fn_call = closure_call
    t_FnMut_call_mut = closure_call
    t_FnOnce_call_once = closure_call

    # ------------------------------------------------------------ Option / Result
    def opt(self, ex, st, q, v):
        return ex.refine(st, v, q['type'].strip())

    def none(self, ex, q, st=None, dest=None):
        ty = ex.resolve_dest(st, dest).ty if dest is not None else q['type']
        return Agg('Option', 'None', [], ex.c.sort(ty))

    def m_Option_is_none(self, ex, st, q, args, *r):
        v = ex.force(args[0])
        if isinstance(v, Agg):
            return TRUE if v.variant == 'None' else FALSE
        return Term('%s is None' % par(v.t), 'bool')

    def m_Option_is_some(self, ex, st, q, args, *r):
        return ex.lnot(self.m_Option_is_none(ex, st, q, args))

    def m_Option_take(self, ex, st, q, args, *r):
        pl = args[0].place
        old = ex.force(ex.read(st, pl))
        ex.write(st, pl, Agg('Option', 'None', [], ex.c.sort(q['type'])))
        return old

    def m_Option_replace(self, ex, st, q, args, *r):
        pl = args[0].place
        old = ex.force(ex.read(st, pl))
        ex.write(st, pl, Agg('Option', 'Some', [ex.force(args[1])], ex.c.sort(q['type'])))
        return old

    def m_Option_as_ref(self, ex, st, q, args, *r):
        return ex.force(args[0])
    m_Option_cloned = m_Option_as_ref
    m_Option_copied = m_Option_as_ref
    m_Option_as_deref = m_Option_as_ref

    def m_Option_unwrap(self, ex, st, q, args, *r):
        v = ex.force(args[0])
        if isinstance(v, Agg):
            if v.variant == 'None':
                ex.oblige(st, 'false', 'no panic: unwrap of None')
                return ENDED
            return v.fields[0]
        ex.oblige(st, '%s is Some' % par(v.t), 'no panic: unwrap')
        return ex.expand_variant(st, v, 'Some', q['type'].strip()).fields[0]
    m_Option_expect = m_Option_unwrap

    def m_Option_map(self, ex, st, q, args, ops, dest, target):
        v = self.opt(ex, st, q, args[0])
        if v.variant == 'None':
            return self.none(ex, q, st, dest)
        sort = ex.c.sort(ex.resolve_dest(st, dest).ty)
        return self.invoke(ex, st, ex.force(args[1]), [v.fields[0]], dest, target, hook=lambda s, x: Agg('Option', 'Some', [x], sort))

    def m_Option_and_then(self, ex, st, q, args, ops, dest, target):
        v = self.opt(ex, st, q, args[0])
        if v.variant == 'None':
            return self.none(ex, q, st, dest)
        return self.invoke(ex, st, ex.force(args[1]), [v.fields[0]], dest, target)

    def m_Option_unwrap_or(self, ex, st, q, args, *r):
        v = self.opt(ex, st, q, args[0])
        return args[1] if v.variant == 'None' else v.fields[0]

    def m_Option_unwrap_or_else(self, ex, st, q, args, ops, dest, target):
        v = self.opt(ex, st, q, args[0])
        return v.fields[0] if v.variant == 'Some' else self.invoke(ex, st, ex.force(args[1]), [], dest, target)

    def m_Option_or_else(self, ex, st, q, args, ops, dest, target):
        v = self.opt(ex, st, q, args[0])
        return v if v.variant == 'Some' else self.invoke(ex, st, ex.force(args[1]), [], dest, target)

    def m_Option_or(self, ex, st, q, args, *r):
        v = self.opt(ex, st, q, args[0])
        return v if v.variant == 'Some' else args[1]

    def m_Option_map_or(self, ex, st, q, args, ops, dest, target):
        v = self.opt(ex, st, q, args[0])
        return args[1] if v.variant == 'None' else self.invoke(ex, st, ex.force(args[2]), [v.fields[0]], dest, target)

    def m_Option_map_or_else(self, ex, st, q, args, ops, dest, target):
        v = self.opt(ex, st, q, args[0])
        if v.variant == 'None':
            return self.invoke(ex, st, ex.force(args[1]), [], dest, target)
        return self.invoke(ex, st, ex.force(args[2]), [v.fields[0]], dest, target)

    def m_Option_is_some_and(self, ex, st, q, args, ops, dest, target):
        v = self.opt(ex, st, q, args[0])
        return FALSE if v.variant == 'None' else self.invoke(ex, st, ex.force(args[1]), [v.fields[0]], dest, target)

    def m_Option_is_none_or(self, ex, st, q, args, ops, dest, target):
        v = self.opt(ex, st, q, args[0])
        return TRUE if v.variant == 'None' else self.invoke(ex, st, ex.force(args[1]), [v.fields[0]], dest, target)

    def m_Option_ok_or(self, ex, st, q, args, ops, dest, target):
        v = self.opt(ex, st, q, args[0])
        sort = ex.c.sort(ex.resolve_dest(st, dest).ty)
        return Agg('Result', 'Err', [args[1]], sort) if v.variant == 'None' else Agg('Result', 'Ok', [v.fields[0]], sort)

    def m_Option_filter(self, ex, st, q, args, ops, dest, target):
        v = self.opt(ex, st, q, args[0])
        if v.variant == 'None':
            return self.none(ex, q, st, dest)
        sort = ex.c.sort(ex.resolve_dest(st, dest).ty)

        def done(s, c):
            if ex.decide(s, ex.force(c)):
                return Agg('Option', 'Some', [v.fields[0]], sort)
            return Agg('Option', 'None', [], sort)
        return self.invoke(ex, st, ex.force(args[1]), [v.fields[0]], dest, target, hook=done)

    def m_Result_unwrap(self, ex, st, q, args, *r):
        v = ex.force(args[0])
        if isinstance(v, Agg):
            if v.variant == 'Err':
                ex.oblige(st, 'false', 'no panic: unwrap of Err')
                return ENDED
            return v.fields[0]
        if v.sort and v.sort.startswith('Result<'):
            ex.oblige(st, '%s is Ok' % par(v.t), 'no panic: unwrap')
            return ex.expand_variant(st, v, 'Ok', q['type'].strip()).fields[0]
        raise Unsupported('unwrap of %r' % v)

    def m_Result_is_ok(self, ex, st, q, args, *r):
        v = ex.force(args[0])
        if isinstance(v, Agg):
            return TRUE if v.variant == 'Ok' else FALSE
        return Term('%s is Ok' % par(v.t), 'bool')

    def m_Result_is_err(self, ex, st, q, args, *r):
        return ex.lnot(self.m_Result_is_ok(ex, st, q, args))

    def m_Result_ok(self, ex, st, q, args, ops, dest, target):
        v = ex.refine(st, args[0], q['type'].strip())
        if v.variant == 'Ok':
            return Agg('Option', 'Some', [v.fields[0]], ex.c.sort(ex.resolve_dest(st, dest).ty))
        return self.none(ex, q, st, dest)

    def t_Try_branch(self, ex, st, q, args, ops, dest, target):
        v = ex.refine(st, args[0], q['type'].strip())
        if v.variant == 'Ok':
            return Agg('ControlFlow', 'Continue', [v.fields[0]])
        if v.variant == 'Some':
            return Agg('ControlFlow', 'Continue', [v.fields[0]])
        if v.variant == 'None':
            return Agg('ControlFlow', 'Break', [v])
        return Agg('ControlFlow', 'Break', [Agg('Result', 'Err', [v.fields[0]])])

    def t_FromResidual_from_residual(self, ex, st, q, args, ops, dest, target):
        v = ex.force(args[0])
        ty = q['type'].strip()
        sort = ex.c.sort(ty)
        if ty.name == 'Option':
            return Agg('Option', 'None', [], sort)
        m = re.search(r'Result<!, (.*)>>$', q['trait'])
        src, dst = parse_ty(m.group(1)), ty.args[1]
        e = v.fields[0] if isinstance(v, Agg) else ex.expand_variant(st, v, 'Err', Ty('adt', 'Result', [Ty('prim', '!'), src])).fields[0]
        if repr(src) != repr(dst):
            if dst.name == 'ParserError':
                var = {'Error': 'DomError', 'roxmltree::Error': 'RoXmlError'}.get(src.name)
                if var is None:
                    raise Unsupported('from_residual ' + q['text'])
                e = Agg('ParserError', var, [e], 'ParserError')
            else:
                raise Unsupported('from_residual ' + q['text'])
        return Agg('Result', 'Err', [e], sort)

    # ------------------------------------------------------------ Rc / Weak / RefCell
    def ident(self, ex, st, q, args, *r):
        return ex.force(args[0])
    m_Rc_downgrade = ident
    m_RefCell_new = ident
    m_Rc_clone = ident

    def m_Rc_ptr_eq(self, ex, st, q, args, *r):
        return ex.eq(args[0], args[1])

    def m_Weak_upgrade(self, ex, st, q, args, ops, dest, target):
        return Agg('Option', 'Some', [ex.force(args[0])], 'Option<int>')

    def m_Rc_new(self, ex, st, q, args, ops, dest, target):
        v = ex.force(args[0])
        if not (isinstance(v, Agg) and v.kind == 'TreeData'):
            raise Unsupported('Rc::new of %r' % (v,))
        return ex.alloc(st, v)

    def cell(self, ex, args):
        v = args[0]
        if isinstance(v, Ref) and v.place.base[0] == 'h' and not v.place.projs:
            return Term(v.place.base[1], 'int')
        return ex.force(v)

    def m_RefCell_borrow(self, ex, st, q, args, *r):
        return ex.borrow(st, self.cell(ex, args), False, 'borrow')

    def m_RefCell_borrow_mut(self, ex, st, q, args, *r):
        return ex.borrow(st, self.cell(ex, args), True, 'borrow_mut')

    def guard_map(self, ex, st, q, args, ops, dest, target):
        g, clo = args
        if not isinstance(g, Guard):
            raise Unsupported('map of %r' % (g,))
        b = ex.p.closures.get(clo.key) if isinstance(clo, Clo) else None
        if b is None:
            raise Unsupported('map of a guard')
        r = ex.eval_place(st, b, [clo, Ref(g.place, g.mut)])
        if not isinstance(r, Ref):
            raise Unsupported('map of a guard to a value')
        return Guard(g.bid, r.place, g.mut)
    m_Ref_map = guard_map
    m_RefMut_map = guard_map

    # ------------------------------------------------------------ Vec / slices / strings
    def seq_place(self, ex, st, a):
        if not isinstance(a, Ref):
            raise Unsupported('vector is not a place: %r' % (a,))
        pl = a.place
        v = ex.read(st, pl)
        while isinstance(v, Ref):
            pl = v.place
            v = ex.read(st, pl)
        return pl, v

    def empty(self, ex, st, dest):
        sort = ex.c.sort(ex.resolve_dest(st, dest).ty)
        return Term('Seq::<%s>::empty()' % sort[4:-1], sort)

    def m_Vec_new(self, ex, st, q, args, ops, dest, target):
        return self.empty(ex, st, dest)
    m_Vec_with_capacity = m_Vec_new
    m_String_new = m_Vec_new
    m_String_with_capacity = m_Vec_new

    def m_Vec_reserve(self, ex, st, q, args, *r):
        return UNIT

    def m_Vec_capacity(self, ex, st, q, args, ops, dest, target):
        return self.opaque(ex, st, dest, 'cap')

    def m_Vec_len(self, ex, st, q, args, *r):
        if not ex.pure:
            ex.out.put('assume(%s.len() <= %d);' % (par(ex.term(ex.force(args[0]))), 2**63 - 1))     # a vector has at most isize::MAX bytes
        return Term('(%s.len() as int)' % par(ex.term(ex.force(args[0]))), 'int')

    def m_str_len(self, ex, st, q, args, *r):
        if not ex.pure:
            ex.out.put('assume(utf8_len(%s) <= %d);' % (ex.term(ex.force(args[0])), 2**63 - 1))
        return Term('utf8_len(%s)' % ex.term(ex.force(args[0])), 'int')
    m_String_len = m_str_len
    m_slice_len = m_Vec_len

    def m_Vec_is_empty(self, ex, st, q, args, *r):
        return Term('(%s.len() == 0)' % par(ex.term(ex.force(args[0]))), 'bool')
    m_str_is_empty = m_Vec_is_empty
    m_String_is_empty = m_Vec_is_empty
    m_slice_is_empty = m_Vec_is_empty

    def m_Vec_push(self, ex, st, q, args, *r):
        pl, v = self.seq_place(ex, st, args[0])
        ex.write(st, pl, Term('%s.push(%s)' % (par(ex.term(v)), ex.term(ex.force(args[1]))), v.sort, getattr(v, 'ty', None)))
        return UNIT
    m_String_push = m_Vec_push

    def m_Vec_extend_from_slice(self, ex, st, q, args, *r):
        pl, v = self.seq_place(ex, st, args[0])
        ex.write(st, pl, Term('(%s + %s)' % (ex.term(v), ex.term(ex.force(args[1]))), v.sort, getattr(v, 'ty', None)))
        return UNIT
    m_String_push_str = m_Vec_extend_from_slice

    def m_Vec_clear(self, ex, st, q, args, *r):
        pl, v = self.seq_place(ex, st, args[0])
        ex.write(st, pl, Term('Seq::<%s>::empty()' % v.sort[4:-1], v.sort))
        return UNIT
    m_String_clear = m_Vec_clear

    def m_Vec_remove(self, ex, st, q, args, ops, dest, target):
        pl, v = self.seq_place(ex, st, args[0])
        i = ex.term(ex.force(args[1]))
        t = ex.term(v)
        ex.oblige(st, '0 <= %s < %s.len()' % (i, par(t)), 'no panic: Vec::remove index')
        ex.write(st, pl, Term('%s.remove(%s)' % (par(t), i), v.sort, getattr(v, 'ty', None)))
        return Term('%s[%s]' % (par(t), i), seq_elem(v.sort), ex.resolve_dest(st, dest).ty)

    def m_Vec_insert(self, ex, st, q, args, *r):
        pl, v = self.seq_place(ex, st, args[0])
        i = ex.term(ex.force(args[1]))
        t = ex.term(v)
        ex.oblige(st, '0 <= %s <= %s.len()' % (i, par(t)), 'no panic: Vec::insert index')
        ex.write(st, pl, Term('%s.insert(%s, %s)' % (par(t), i, ex.term(ex.force(args[2]))), v.sort, getattr(v, 'ty', None)))
        return UNIT

    def m_Vec_pop(self, ex, st, q, args, ops, dest, target):
        pl, v = self.seq_place(ex, st, args[0])
        t = ex.term(v)
        c = Term('(%s.len() == 0)' % par(t), 'bool')
        if ex.decide(st, c):
            return self.none(ex, q, st, dest)
        ex.write(st, pl, Term('%s.drop_last()' % par(t), v.sort, getattr(v, 'ty', None)))
        return Agg('Option', 'Some', [Term('%s.last()' % par(t), seq_elem(v.sort))], 'Option<%s>' % seq_elem(v.sort))
    m_String_pop = m_Vec_pop

    def m_slice_first(self, ex, st, q, args, ops, dest, target):
        v = ex.force(args[0])
        t = par(ex.term(v))
        return Term('(if %s.len() == 0 { None } else { Some(%s[0]) })' % (t, t), 'Option<%s>' % seq_elem(v.sort))

    def m_slice_last(self, ex, st, q, args, ops, dest, target):
        v = ex.force(args[0])
        t = par(ex.term(v))
        return Term('(if %s.len() == 0 { None } else { Some(%s[%s.len() - 1]) })' % (t, t, t), 'Option<%s>' % seq_elem(v.sort))

    def m_slice_contains(self, ex, st, q, args, *r):
        v, x = ex.force(args[0]), ex.force(args[1])
        ety = q['type'].strip()
        ety = ety.args[0].strip() if ety.args else None
        n = getattr(ety, 'name', None)
        if v.sort == 'Seq<int>' and n == 'Node':
            ex.used_contracts.add('Node::eq')
        elif not (v.sort == 'Seq<int>' and n in ('AttributeId', 'ElementId', 'usize', 'u8', 'u32')) and v.sort != 'Seq<char>':
            raise Unsupported('no model for ' + q['text'])
        return Term('%s.contains(%s)' % (par(ex.term(v)), ex.term(x)), 'bool')

    def t_Index_index(self, ex, st, q, args, *r):
        v, i = ex.force(args[0]), ex.term(ex.force(args[1]))
        t = ex.term(v)
        ex.oblige(st, '0 <= %s < %s.len()' % (i, par(t)), 'no panic: index in bounds')
        ty = q['type'].strip()
        ety = ty.args[0] if ty.args else None
        return Term('%s[%s]' % (par(t), i), seq_elem(v.sort), ety)

    def t_IndexMut_index_mut(self, ex, st, q, args, *r):
        pl, v = self.seq_place(ex, st, args[0])
        i = ex.term(ex.force(args[1]))
        ex.oblige(st, '0 <= %s < %s.len()' % (i, par(ex.term(v))), 'no panic: index in bounds')
        ty = q['type'].strip()
        return Ref(pl.add(('i', i, ty.args[0] if ty.args else None), ty.args[0] if ty.args else None), True)

    def m_slice_iter(self, ex, st, q, args, *r):
        return Agg('Iter', None, [ex.force(args[0]), Term('0', 'int')])
    m_Vec_iter = m_slice_iter

    def m_slice_iter_mut(self, ex, st, q, args, *r):
        pl, v = self.seq_place(ex, st, args[0])
        return Agg('IterMut', None, [Ref(pl), Term('0', 'int')])

    def m_String_drain(self, ex, st, q, args, ops, dest, target):
        pl, v = self.seq_place(ex, st, args[0])
        r = ex.force(args[1])
        if not (isinstance(r, Agg) and len(r.fields) == 2 and v.sort == 'Seq<char>'):
            raise Unsupported('String::drain of %r' % (r,))
        t = par(ex.term(v))
        a, b = ['byte_pos(%s, %s)' % (t, ex.term(ex.force(x))) for x in r.fields]
        for p, x in ((a, r.fields[0]), (b, r.fields[1])):
            ex.oblige(st, 'at_byte(%s, %s, %s)' % (t, ex.term(ex.force(x)), p), 'no panic: String::drain at a character boundary')
        ex.oblige(st, '%s <= %s' % (a, b), 'no panic: String::drain range in order')
        ex.write(st, pl, Term('(%s.take(%s) + %s.skip(%s))' % (t, a, t, b), 'Seq<char>', getattr(v, 'ty', None)))
        return Agg('Drained', None, [])

    def m_str_chars(self, ex, st, q, args, *r):
        return Agg('Iter', None, [ex.force(args[0]), Term('0', 'int')])

    def m_String_as_bytes(self, ex, st, q, args, *r):
        return Term('utf8(%s)' % ex.term(ex.force(args[0])), 'Seq<int>')
    m_str_as_bytes = m_String_as_bytes

    def m_str_trim(self, ex, st, q, args, *r):
        return Term('str_trim(%s)' % ex.term(ex.force(args[0])), 'Seq<char>')

    def t_Iterator_next(self, ex, st, q, args, ops, dest, target):
        r = args[0]
        it = ex.force(r)
        if isinstance(it, Agg) and it.kind == 'Iter':
            seq, idx = it.fields
            self.in_step(ex, st, seq)
            t, i = ex.term(seq), ex.term(idx)
            c = Term('(%s < %s.len())' % (i, par(t)), 'bool')
            if not ex.decide(st, c):
                return self.none(ex, q, st, dest)
            ex.write(st, r.place.add(('f', 1)), Term('(%s + 1)' % i, 'int'))
            es = seq_elem(seq.sort)
            dty = ex.resolve_dest(st, dest).ty.strip()
            return Agg('Option', 'Some', [Term('%s[%s]' % (par(t), i), es, dty.args[0] if dty.args else None)], 'Option<%s>' % es)
        if isinstance(it, Agg) and it.kind == 'IterMut':
            ref, idx = it.fields
            v = ex.read(st, ref.place)
            t, i = ex.term(v), ex.term(idx)
            c = Term('(%s < %s.len())' % (i, par(t)), 'bool')
            if not ex.decide(st, c):
                return self.none(ex, q, st, dest)
            ex.write(st, r.place.add(('f', 1)), Term('(%s + 1)' % i, 'int'))
            dty = ex.resolve_dest(st, dest).ty.strip()
            ety = dty.args[0].strip()
            return Agg('Option', 'Some', [Ref(ref.place.add(('i', i, ety), ety), True)])
        if isinstance(it, Agg) and it.kind == 'Filter' and not ex.pure:
            return self.filter_next(ex, st, q, r, it, dest)
        raise Unsupported('next of %r' % (it,))

    def t_Iterator_filter(self, ex, st, q, args, *r):
        it = ex.force(args[0])
        if isinstance(it, Agg) and it.kind == 'Children':
            return Agg('Filter', None, [it, ex.force(args[1])])
        seq, es, x, p = self.seq_closure(ex, st, q, args)
        s = ex.term(seq)
        f = '|%s: %s| %s' % (x, es, p)
        return Agg('Iter', None, [self.step(ex, st, 'fl', '%s.filter(%s)' % (par(s), f), 'Seq<%s>' % es, ty=seq.ty), Term('0', 'int')])

    def filter_next(self, ex, st, q, r, it, dest):
        """Filter::next: Children::next until the predicate holds"""
        inner = it.fields[0]
        seq, es, x, p = self.seq_closure(ex, st, {'type': None}, [inner, it.fields[1]])
        s = ex.term(seq)
        f = ex.fresh('f')
        ex.out.put('let %s = |%s: %s| %s;' % (f, x, es, p))
        ex.out.put('lemma_seq_pos(%s, %s);' % (s, f))
        pos = ex.let('seq_pos(%s, %s)' % (s, f), 'Option<int>').t
        a, b = ex.fresh('it'), ex.fresh('it')
        ex.out.put('let %s = %s;' % (a, ex.struct_term(inner)))
        ex.out.put('let %s: SChildren = any_value(%d);' % (b, ex.n))
        h = st.heap
        ex.out.put('lemma_filter_kids(%s, %s, %s);' % (h, a, f))
        ex.out.put('assume(forall|p: int, lo: int, hi: int| #[trigger] ch_ok(%s, %s, p, lo, hi) ==> ch_ok(%s, %s, p, if %s is Some { lo + %s->0 + 1 } else { hi }, hi));' % (h, a, h, b, pos, pos))
        new = ex.unflatten('SChildren', b, inner)
        ex.write(st, r.place.add(('f', 0)), new)
        return Term('(match %s { Some(i) => Some(%s[i]), None => None })' % (pos, s), 'Option<int>', ex.resolve_dest(st, dest).ty)

    def t_Iterator_rev(self, ex, st, q, args, *r):
        it = ex.force(args[0])
        if not (isinstance(it, Agg) and it.kind == 'Iter' and as_int(it.fields[1]) == 0):
            raise Unsupported('rev of %r' % (it,))
        return Agg('Iter', None, [Term('%s.reverse()' % par(ex.term(it.fields[0])), it.fields[0].sort), Term('0', 'int')])

    def t_Iterator_take_while(self, ex, st, q, args, *r):
        s, es, x, p = self.seq_pred(ex, st, q, args)
        if not ex.pure:
            ex.out.put('lemma_seq_while(%s, |%s: %s| %s);' % (s, x, es, p))
        t = 'seq_while(%s, |%s: %s| %s)' % (s, x, es, p)
        return Agg('Iter', None, [self.step(ex, st, 'tw', t, 'Seq<%s>' % es), Term('0', 'int')])

    # ------------------------------------------------------------ svgtypes: text streams and parsers
    def stream_op(name):
        def f(self, ex, st, q, args, ops, dest, target):
            pl, v = self.seq_place(ex, st, args[0])
            t = ex.term(v)
            ty = ex.resolve_dest(st, dest).ty
            sort = ex.c.sort(ty)
            self.uninterp['stream_' + name] = (['X_Stream'], sort)
            self.uninterp['stream_after_' + name] = (['X_Stream'], 'X_Stream')
            ex.write(st, pl, Term('stream_after_%s(%s)' % (name, t), 'X_Stream'))
            return Term('stream_%s(%s)' % (name, t), sort, ty)
        return f
    m_Stream_parse_iri = stream_op('parse_iri')
    m_Stream_parse_func_iri = stream_op('parse_func_iri')
    m_Stream_parse_number = stream_op('parse_number')

    def m_Stream_at_end(self, ex, st, q, args, *r):
        self.uninterp['stream_at_end'] = (['X_Stream'], 'bool')
        return Term('stream_at_end(%s)' % ex.term(ex.force(args[0])), 'bool')

    def items(self, ex, st, q, it):
        """Term: the sequence an iterator would still yield; the crate's own iterators by the contract of their next"""
        if isinstance(it, Agg) and it.kind == 'Iter':
            self.in_step(ex, st, it.fields[0])
            if as_int(it.fields[1]) == 0:
                return it.fields[0]
            t = ex.term(it.fields[0])
            return Term('%s.skip(%s)' % (par(t), ex.term(it.fields[1])), it.fields[0].sort)
        h = head_of(q['type']) if q['type'] is not None else None
        kind = it.kind if isinstance(it, Agg) else None
        if kind in ('Children', 'Traverse') and not ex.pure and h != 'Traverse':
            fn = 'ch' if kind == 'Children' else 'des'
            ex.used_contracts.add('Children::next' if kind == 'Children' else 'Descendants::next')
            t = ex.struct_term(it)
            n = ex.fresh('it')
            ex.out.put('let %s = %s;' % (n, t))
            ex.oblige(st, 'wf(%s)' % st.heap, 'the tree an iterator walks is well formed')
            ex.out.put('lemma_%s_rest(%s, %s);' % (fn, st.heap, n))
            ex.oblige(st, '%s_live(%s, %s)' % (fn, st.heap, n), 'the iterator is in step with the tree')
            return Term('%s_rest(%s, %s)' % (fn, st.heap, n), 'Seq<int>', parse_ty('[tree::Node<NodeData>]'))
        raise Unsupported('iterator adapter on %r' % (it,))

    def spend(self, ex, st, a):
        """an iterator that an adaptor took by reference is not used again (its position is not modelled)"""
        if isinstance(a, Ref) and a.place.base[0] == 's':
            ex.write(st, a.place, Agg('Spent', None, []))

    def elem_ty(self, seq):
        t = getattr(seq, 'ty', None)
        t = t.strip() if t is not None else None
        return t.args[0] if t is not None and t.args else None

    def seq_closure(self, ex, st, q, args, sort='bool'):
        """(seq Term, elem sort, var, closure text): an iterator and a pure closure over its elements"""
        seq = self.items(ex, st, q, ex.force(args[0]))
        es = seq_elem(seq.sort)
        x = ex.fresh('x')
        r, obl = ex.call_closure_pure(st, ex.force(args[1]), [Term(x, es, self.elem_ty(seq))], sort)
        for conds, c, l in obl:
            ex.oblige(st, 'forall|%s: %s| #![trigger %s.contains(%s)] %s.contains(%s) && (%s) ==> (%s)' % (
                x, es, par(ex.term(seq)), x, par(ex.term(seq)), x, ' && '.join(conds) or 'true', c), 'closure: ' + l)
        return seq, es, x, r.t

    def t_Iterator_filter_map(self, ex, st, q, args, ops, dest, target):
        clo = ex.force(args[1])
        rty = self.ret_ty_of(ex, clo)
        sort = ex.c.sort(rty)
        seq, es, x, p = self.seq_closure(ex, st, q, args, sort)
        f = '|%s: %s| -> %s { %s }' % (x, es, sort, p)
        f = '|%s: %s| %s' % (x, es, p)
        s = ex.term(seq)
        if not ex.pure:
            ex.out.put('lemma_filter_map::<%s, %s>(%s, %s);' % (es, sort[7:-1], s, f))
        ety = rty.args[0]
        return Agg('Iter', None, [self.step(ex, st, 'fm', 'seq_filter_map::<%s, %s>(%s, %s)' % (es, sort[7:-1], s, f), 'Seq<%s>' % sort[7:-1], ty=Ty('slice', None, [ety])), Term('0', 'int')])

    def in_step(self, ex, st, seq):
        """lazy adaptors: the closure ran on the heap the adaptor was made in"""
        if ex.lazy.get(getattr(seq, 't', None), st.heap) != st.heap:
            raise Unsupported('an iterator adaptor whose closure reads what changed since')

    def step(self, ex, st, name, text, sort, ty=None):
        r = ex.let(text, sort, ty=ty)
        if st.heap and re.search(r'\b%s\b' % re.escape(st.heap), text):
            ex.lazy[r.t] = st.heap
        if not ex.pure:
            # a name for the proof text of contracts
            ex.out.put('let %s = %s;' % (name, r.t))
        return r

    def t_Iterator_map(self, ex, st, q, args, ops, dest, target):
        clo = ex.force(args[1])
        rty = self.ret_ty_of(ex, clo)
        sort = ex.c.sort(rty)
        seq, es, x, p = self.seq_closure(ex, st, q, args, sort)
        return Agg('Iter', None, [self.step(ex, st, 'mp', 'seq_map::<%s, %s>(%s, |%s: %s| %s)' % (es, sort, ex.term(seq), x, es, p), 'Seq<%s>' % sort, ty=Ty('slice', None, [rty])), Term('0', 'int')])

    def ret_ty_of(self, ex, clo):
        if isinstance(clo, Clo):
            b = ex.p.closures.get(clo.key)
        elif isinstance(clo, FnVal):
            b = ex.fn_body(clo.path)
        else:
            b = None
        if b is None:
            raise Unsupported('call of %r' % (clo,))
        return parse_ty(b.ret)

    def t_Iterator_collect(self, ex, st, q, args, ops, dest, target):
        seq = self.items(ex, st, q, ex.force(args[0]))
        sort = ex.c.sort(ex.resolve_dest(st, dest).ty)
        if sort != seq.sort:
            raise Unsupported('collect into ' + sort)
        return Term(ex.term(seq), sort, ex.resolve_dest(st, dest).ty)

    def t_Iterator_nth(self, ex, st, q, args, ops, dest, target):
        seq = self.items(ex, st, q, ex.force(args[0]))
        self.spend(ex, st, args[0])
        i = ex.term(ex.force(args[1]))
        t = par(ex.term(seq))
        es = seq_elem(seq.sort)
        return Term('(if 0 <= %s < %s.len() { Some(%s[%s]) } else { None })' % (i, t, t, i), 'Option<%s>' % es, ex.resolve_dest(st, dest).ty)

    def t_Iterator_last(self, ex, st, q, args, ops, dest, target):
        seq = self.items(ex, st, q, ex.force(args[0]))
        self.spend(ex, st, args[0])
        t = par(ex.term(seq))
        es = seq_elem(seq.sort)
        return Term('(if %s.len() > 0 { Some(%s[%s.len() - 1]) } else { None })' % (t, t, t), 'Option<%s>' % es, ex.resolve_dest(st, dest).ty)

    def t_Iterator_skip(self, ex, st, q, args, *r):
        seq = self.items(ex, st, q, ex.force(args[0]))
        i, t = ex.term(ex.force(args[1])), par(ex.term(seq))
        return Agg('Iter', None, [self.step(ex, st, 'sk', '(if %s <= %s.len() { %s.skip(%s) } else { %s.take(0) })' % (i, t, t, i, t), seq.sort, ty=getattr(seq, 'ty', None)), Term('0', 'int')])

    def t_Iterator_take(self, ex, st, q, args, *r):
        seq = self.items(ex, st, q, ex.force(args[0]))
        i, t = ex.term(ex.force(args[1])), par(ex.term(seq))
        return Agg('Iter', None, [self.step(ex, st, 'tk', '(if %s <= %s.len() { %s.take(%s) } else { %s })' % (i, t, t, i, t), seq.sort, ty=getattr(seq, 'ty', None)), Term('0', 'int')])

    def t_Iterator_count(self, ex, st, q, args, *r):
        return Term('(%s.len() as int)' % par(ex.term(self.items(ex, st, q, ex.force(args[0])))), 'int')

    def sort_by(self, ex, st, q, args):
        pl, v = self.seq_place(ex, st, args[0])
        es = seq_elem(v.sort)
        x = ex.fresh('x')
        r, obl = ex.call_closure_pure(st, ex.force(args[1]), [Term(x, es, self.elem_ty(v))], 'int')
        for conds, c, l in obl:
            ex.oblige(st, 'forall|%s: %s| (%s) ==> (%s)' % (x, es, ' && '.join(conds) or 'true', c), 'closure: ' + l)
        f = '|%s: %s| %s' % (x, es, r.t)
        t = ex.term(v)
        if not ex.pure:
            ex.out.put('lemma_seq_sort::<%s>(%s, %s);' % (es, t, f))
        ex.write(st, pl, Term(ex.let('seq_sort::<%s>(%s, %s)' % (es, t, f), v.sort).t, v.sort, getattr(v, 'ty', None)))
        return UNIT

    def m_slice_sort_by_key(self, ex, st, q, args, *r):
        return self.sort_by(ex, st, q, args)

    def m_str_starts_with(self, ex, st, q, args, *r):
        p = ex.force(args[1])
        t = par(ex.term(ex.force(args[0])))
        if getattr(p, 'sort', None) == 'char':
            return Term('(%s.len() > 0 && %s[0] == %s)' % (t, t, ex.term(p)), 'bool')
        if getattr(p, 'sort', None) != 'Seq<char>':
            raise Unsupported('starts_with %r' % (p,))
        return Term('starts_with(%s, %s)' % (t, ex.term(p)), 'bool')

    def m_str_ends_with(self, ex, st, q, args, *r):
        p = ex.force(args[1])
        t = par(ex.term(ex.force(args[0])))
        if getattr(p, 'sort', None) != 'char':
            raise Unsupported('ends_with %r' % (p,))
        return Term('(%s.len() > 0 && %s[%s.len() - 1] == %s)' % (t, t, t, ex.term(p)), 'bool')

    # ------------------------------------------------------------ xmlwriter: the sequence of events it is given
    def xw_event(self, ex, st, args, ev):
        pl, v = self.seq_place(ex, st, args[0])
        t = ex.term(v)
        ex.write(st, pl, Term('xw(%s, %s)' % (t, ev), 'X_XmlWriter', getattr(v, 'ty', None)))
        return UNIT

    def m_XmlWriter_new(self, ex, st, q, args, *r):
        o = ex.force(args[0])
        if not isinstance(o, Agg):
            raise Unsupported('writer options %r' % (o,))
        names = ['use_single_quote', 'indent', 'attributes_indent']
        return Term('X_XmlWriter { opt: X_xmlwriter_Options { %s }, ev: Seq::<Ev>::empty() }' % ', '.join(
            '%s: %s' % (n, ex.term(f)) for n, f in zip(names, o.fields)), 'X_XmlWriter')

    def m_XmlWriter_start_element(self, ex, st, q, args, *r):
        return self.xw_event(ex, st, args, 'Ev::Start(%s)' % ex.term(ex.force(args[1])))

    def m_XmlWriter_write_attribute(self, ex, st, q, args, *r):
        pl, v = self.seq_place(ex, st, args[0])
        ex.oblige(st, 'in_tag(%s.ev)' % par(ex.term(v)), 'no panic: attribute written inside a start tag')
        x = ex.force(args[2])
        if getattr(x, 'sort', None) != 'Seq<char>':
            raise Unsupported('attribute value %r' % (x,))
        return self.xw_event(ex, st, args, 'Ev::Attr(%s, utf8(%s))' % (ex.term(ex.force(args[1])), ex.term(x)))

    def m_XmlWriter_write_attribute_raw(self, ex, st, q, args, ops, dest, target):
        pl, v = self.seq_place(ex, st, args[0])
        ex.oblige(st, 'in_tag(%s.ev)' % par(ex.term(v)), 'no panic: attribute written inside a start tag')
        b = ex.fresh('buf')
        ex.out.put('let %s: Seq<int> = any_value(%d);' % (b, ex.n))
        ex.out.put('lemma_appended(%s);' % b)
        key = ('buf', b)
        st.store[key] = Term(b, 'Seq<int>', parse_ty('Vec<u8>'))
        name = ex.term(ex.force(args[1]))

        def done(s, rv):
            after = ex.term(ex.read(s, Place(('s', key))))
            ex.oblige(s, 'is_prefix(%s, %s)' % (b, after), 'only appends to the writer')
            self.xw_event(ex, s, args, 'Ev::Attr(%s, appended(%s, %s))' % (name, b, after))
            return UNIT
        return self.invoke(ex, st, ex.force(args[2]), [Ref(Place(('s', key), (), parse_ty('Vec<u8>')), True)], dest, target, hook=done)

    def m_XmlWriter_write_comment(self, ex, st, q, args, *r):
        return self.xw_event(ex, st, args, 'Ev::Comment(%s)' % ex.term(ex.force(args[1])))

    def m_XmlWriter_write_text(self, ex, st, q, args, *r):
        pl, v = self.seq_place(ex, st, args[0])
        ex.oblige(st, 'xw_depth(%s.ev) > 0' % par(ex.term(v)), 'no panic: text written inside an element')
        return self.xw_event(ex, st, args, 'Ev::Text(%s)' % ex.term(ex.force(args[1])))

    def m_XmlWriter_end_element(self, ex, st, q, args, *r):
        return self.xw_event(ex, st, args, 'Ev::End')

    def m_XmlWriter_set_preserve_whitespaces(self, ex, st, q, args, *r):
        return self.xw_event(ex, st, args, 'Ev::Preserve(%s)' % ex.term(ex.force(args[1])))

    def m_XmlWriter_end_document(self, ex, st, q, args, *r):
        v = ex.term(ex.force(args[0]))
        return Term('xml_text(%s.opt, %s.ev)' % (par(v), par(v)), 'Seq<char>')

    def seq_pred(self, ex, st, q, args):
        seq, es, x, p = self.seq_closure(ex, st, q, args)
        return ex.term(seq), es, x, p

    def t_Iterator_any(self, ex, st, q, args, *r):
        s, es, x, p = self.seq_pred(ex, st, q, args)
        self.spend(ex, st, args[0])
        return Term('seq_any(%s, |%s: %s| %s)' % (s, x, es, p), 'bool')

    def t_Iterator_all(self, ex, st, q, args, *r):
        s, es, x, p = self.seq_pred(ex, st, q, args)
        self.spend(ex, st, args[0])
        return Term('!seq_any(%s, |%s: %s| !(%s))' % (s, x, es, p), 'bool')

    def t_Iterator_position(self, ex, st, q, args, *r):
        s, es, x, p = self.seq_pred(ex, st, q, args)
        self.spend(ex, st, args[0])
        f = '|%s: %s| %s' % (x, es, p)
        if not ex.pure:
            ex.out.put('lemma_seq_pos(%s, %s);' % (s, f))
        return Term('seq_pos(%s, %s)' % (s, f), 'Option<int>', parse_ty('std::option::Option<usize>'))

    def t_Iterator_find(self, ex, st, q, args, ops, dest, target):
        s, es, x, p = self.seq_pred(ex, st, q, args)
        self.spend(ex, st, args[0])
        f = '|%s: %s| %s' % (x, es, p)
        if not ex.pure:
            ex.out.put('lemma_seq_pos(%s, %s);' % (s, f))
        return Term('(match seq_pos(%s, %s) { Some(i) => Some(%s[i]), None => None })' % (s, f, par(s)), 'Option<%s>' % es, ex.resolve_dest(st, dest).ty)

    def f_replace(self, ex, st, q, args, *r):
        pl = args[0].place
        old = ex.force(ex.read(st, pl))
        ex.write(st, pl, ex.force(args[1]))
        return old

    # ------------------------------------------------------------ siphasher: SipHash-1-3 of the bytes written so far
    def m_siphasher_sip_SipHasher13_new_with_keys(self, ex, st, q, args, *r):
        return Agg('sip', None, [ex.force(args[0]), ex.force(args[1]), Term('Seq::<int>::empty()', 'Seq<int>')])

    def t_Hasher_write(self, ex, st, q, args, *r):
        v = ex.force(args[0])
        b = ex.term(v.fields[2])
        x = ex.term(ex.force(args[1]))
        ex.write(st, args[0].place.add(('f', 2)), Term(x if b == 'Seq::<int>::empty()' else '(%s + %s)' % (b, x), 'Seq<int>'))
        return UNIT

    def t_Hasher_finish(self, ex, st, q, args, *r):
        v = ex.force(args[0])
        return Term('(sip13(%s) as int)' % ', '.join(ex.term(x) for x in v.fields), 'int')

    # ------------------------------------------------------------ svgtypes
    def m_svgtypes_Color_black(self, ex, st, q, args, *r):
        return Term('svg_color(0, 0, 0)', 'X_svgtypes_Color')

    def m_svgtypes_Color_white(self, ex, st, q, args, *r):
        return Term('svg_color(255, 255, 255)', 'X_svgtypes_Color')

    def m_svgtypes_Color_new(self, ex, st, q, args, *r):
        return Term('svg_color(%s)' % ', '.join(ex.term(ex.force(a)) for a in args), 'X_svgtypes_Color')

    def m_svgtypes_Length_new(self, ex, st, q, args, *r):
        return Term('svg_length(%s)' % ', '.join(ex.term(ex.force(a)) for a in args), 'X_svgtypes_Length')

    def t_WriteBuffer_write_buf_opt(self, ex, st, q, args, *r):
        # a dependency's serializer appends text that depends on the value and the options only
        x = ex.force(args[0])
        opt = ex.force(args[1])
        pl, v = self.seq_place(ex, st, args[2])
        for ty, sort in sym.EXT_LISTS.items():
            if x.sort == sort and ty != 'svgtypes::Path':
                # the list type's serializer is the one of the vector inside
                x = Term('X_%s { v: %s }' % (ty.replace('::', '_'), ex.term(x)), 'X_' + ty.replace('::', '_'))
        if not re.match(r'^\w+$', x.sort):
            raise sym.Unsupported('serializer of ' + x.sort)
        name = 'text_of_' + x.sort.replace('X_svgtypes_', '')
        self.uninterp[name] = ([x.sort, opt.sort], 'Seq<int>')
        ex.write(st, pl, Term('(%s + %s(%s, %s))' % (ex.term(v), name, ex.term(x), ex.term(opt)), v.sort, getattr(v, 'ty', None)))
        return UNIT

    # ------------------------------------------------------------ roxmltree: an XML tree is given by its accessors
    def xml(name, sort, fact=None):
        def f(self, ex, st, q, args, ops, dest, target):
            x = ex.term(ex.force(args[0]))
            if fact and not ex.pure:
                ex.out.put('assume(%s);' % fact.replace('%s', x))
            ty = ex.resolve_dest(st, dest).ty
            return Term('%s(%s)' % (name, x), sort, ty)
        return f
    m_roxmltree_Node_node_type = xml('xn_type', 'int')
    m_roxmltree_Node_tag_name = xml('xn_tag', 'X_ExpandedName')
    m_ExpandedName_namespace = xml('xt_ns', 'Option<Seq<char>>')
    m_ExpandedName_name = xml('xt_name', 'Seq<char>')
    # roxmltree: text nodes and comments have a text
    m_roxmltree_Node_text = xml('xn_text', 'Option<Seq<char>>', fact='xn_type(%s) == XT_Text || xn_type(%s) == XT_Comment ==> xn_text(%s) is Some')
    m_roxmltree_Node_attributes = xml('xn_attrs', 'Seq<X_roxmltree_Attribute>')
    m_roxmltree_Attribute_namespace = xml('xa_ns', 'Option<Seq<char>>')
    m_roxmltree_Attribute_name = xml('xa_name', 'Seq<char>')
    m_roxmltree_Attribute_value = xml('xa_value', 'Seq<char>')
    m_roxmltree_Attribute_value_range = xml('xa_range', 'X_Range')
    m_roxmltree_Document_root = xml('xd_root', 'X_roxmltree_Node')
    m_roxmltree_Node_parent_element = xml('xn_parent_element', 'Option<X_roxmltree_Node>')
    del xml

    def m_roxmltree_Node_is_element(self, ex, st, q, args, *r):
        return Term('(xn_type(%s) == XT_Element)' % ex.term(ex.force(args[0])), 'bool')

    def m_roxmltree_Node_is_text(self, ex, st, q, args, *r):
        return Term('(xn_type(%s) == XT_Text)' % ex.term(ex.force(args[0])), 'bool')

    def m_roxmltree_Node_is_comment(self, ex, st, q, args, *r):
        return Term('(xn_type(%s) == XT_Comment)' % ex.term(ex.force(args[0])), 'bool')

    def m_roxmltree_Node_has_children(self, ex, st, q, args, *r):
        return Term('(xn_kids(%s).len() > 0)' % ex.term(ex.force(args[0])), 'bool')

    def m_roxmltree_Node_children(self, ex, st, q, args, *r):
        return Agg('Iter', None, [Term('xn_kids(%s)' % ex.term(ex.force(args[0])), 'Seq<X_roxmltree_Node>', parse_ty("[roxmltree::Node<'_, '_>]")), Term('0', 'int')])

    def m_roxmltree_Node_attribute_node(self, ex, st, q, args, ops, dest, target):
        return Term('xn_attr(%s, %s)' % (ex.term(ex.force(args[0])), ex.term(ex.force(args[1]))), 'Option<X_roxmltree_Attribute>', ex.resolve_dest(st, dest).ty)

    def m_roxmltree_Node_attribute(self, ex, st, q, args, ops, dest, target):
        return Term('xn_attribute(%s, %s)' % (ex.term(ex.force(args[0])), ex.term(ex.force(args[1]))), 'Option<Seq<char>>', ex.resolve_dest(st, dest).ty)

    def m_roxmltree_Node_has_tag_name(self, ex, st, q, args, *r):
        n = ex.force(args[1])
        if getattr(n, 'sort', None) != 'Seq<char>':
            raise Unsupported('has_tag_name of %r' % (n,))
        x = ex.term(ex.force(args[0]))
        return Term('(xn_type(%s) == XT_Element && xt_name(xn_tag(%s)) == %s)' % (x, x, ex.term(n)), 'bool')

    def m_roxmltree_Document_descendants(self, ex, st, q, args, *r):
        return Agg('Iter', None, [Term('xd_all(%s)' % ex.term(ex.force(args[0])), 'Seq<X_roxmltree_Node>', parse_ty("[roxmltree::Node<'_, '_>]")), Term('0', 'int')])

    def m_roxmltree_Node_prev_siblings(self, ex, st, q, args, *r):
        return Agg('Iter', None, [Term('xn_before(%s)' % ex.term(ex.force(args[0])), 'Seq<X_roxmltree_Node>', parse_ty("[roxmltree::Node<'_, '_>]")), Term('0', 'int')])

    def m_AttributeOperator_matches(self, ex, st, q, args, *r):
        return Term('op_matches(%s, %s)' % (ex.term(ex.force(args[0])), ex.term(ex.force(args[1]))), 'bool')

    # ------------------------------------------------------------ simplecss
    def m_StyleSheet_new(self, ex, st, q, args, *r):
        return Term('X_StyleSheet { rules: Seq::empty() }', 'X_StyleSheet')

    def m_StyleSheet_parse_more(self, ex, st, q, args, *r):
        pl = args[0].place
        v = ex.force(ex.read(st, pl))
        ex.write(st, pl, Term(ex.let('css_more(%s, %s)' % (ex.term(v), ex.term(ex.force(args[1]))), 'X_StyleSheet').t, 'X_StyleSheet', getattr(v, 'ty', None)))
        return UNIT

    def m_Selector_matches(self, ex, st, q, args, *r):
        return Term('sel_matches(%s, %s)' % (ex.term(ex.force(args[0])), ex.term(ex.force(args[1]))), 'bool')

    # ------------------------------------------------------------ Slab
    def m_Slab_new(self, ex, st, q, args, *r):
        return Term('IMap::<int, int>::empty()', 'IMap<int, int>')

    def m_Slab_insert(self, ex, st, q, args, ops, dest, target):
        pl, v = self.seq_place(ex, st, args[0])
        t = ex.term(v)
        k = ex.fresh('key')
        ex.emit('let %s = slab_vacant(%s);' % (k, t))
        ex.emit('assume(exists|k: int| !%s.contains_key(k));' % par(t))
        ex.write(st, pl, Term('%s.insert(%s, %s)' % (par(t), k, ex.term(ex.force(args[1]))), v.sort))
        return Term(k, 'int')

    def m_Slab_iter(self, ex, st, q, args, ops, dest, target):
        pl, v = self.seq_place(ex, st, args[0])
        s = ex.fresh('listed')
        ex.emit('let %s = slab_seq(%s);' % (s, ex.term(v)))
        ex.emit('assume(slab_lists(%s, %s));' % (ex.term(v), s))
        return Agg('Iter', None, [Term(s, 'Seq<(int, int)>'), Term('0', 'int')])
    m_Slab_iter_mut = m_Slab_iter

    def m_Slab_remove(self, ex, st, q, args, ops, dest, target):
        pl, v = self.seq_place(ex, st, args[0])
        t, k = ex.term(v), ex.term(ex.force(args[1]))
        ex.oblige(st, '%s.contains_key(%s)' % (par(t), k), 'no panic: Slab::remove of a stored key')
        ex.write(st, pl, Term('%s.remove(%s)' % (par(t), k), v.sort))
        return Term('%s[%s]' % (par(t), k), 'int', ex.resolve_dest(st, dest).ty)


EXTERNAL_PURE = {
    'svgtypes::Length::from_str': 'length_of', 'svgtypes::LengthList::from_str': 'length_list_of', 'svgtypes::Color::from_str': 'color_of',
    'svgtypes::NumberList::from_str': 'number_list_of', 'svgtypes::Points::from_str': 'points_of', 'svgtypes::Transform::from_str': 'transform_of',
    'svgtypes::Angle::from_str': 'angle_of', 'svgtypes::ViewBox::from_str': 'viewbox_of', 'svgtypes::AspectRatio::from_str': 'aspect_of',
    'Paint::from_str': 'paint_of', 'svgtypes::Transform::is_default': 'transform_is_default', 'Stream::from': 'stream',
    'roxmltree::Document::text_pos_at': 'text_pos_at',
}
