"""Contracts for src/names.rs: the perfect-hash tables between names and ids.

The names are listed here from the SVG specification, independently of the tables; an id is found from its name by the naming rule of the enum
(font-size -> FontSize). The tables themselves are read from the MIR of the statics on every run, and the hash is SipHash-1-3 written out as a
specification function, so that every lookup of a listed name is computed inside the verifier."""
import re
from vc import Contract as C, Unit
from contracts_tables import variant, bytes_
from sym import Unsupported

ELEMENT_NAMES = '''a altGlyph altGlyphDef altGlyphItem animate animateColor animateMotion animateTransform circle clipPath color-profile cursor defs desc ellipse feBlend
feColorMatrix feComponentTransfer feComposite feConvolveMatrix feDiffuseLighting feDisplacementMap feDistantLight feFlood feFuncA feFuncB feFuncG
feFuncR feGaussianBlur feImage feMerge feMergeNode feMorphology feOffset fePointLight feSpecularLighting feSpotLight feTile feTurbulence filter font
font-face font-face-format font-face-name font-face-src font-face-uri foreignObject g glyph glyphRef hkern image line linearGradient marker mask
metadata missing-glyph mpath path pattern polygon polyline radialGradient rect script set stop style svg switch symbol text textPath title tref tspan
use view vkern'''
ATTRIBUTE_NAMES = '''accent-height accumulate actuate additive alignment-baseline alphabetic amplitude arabic-form arcrole ascent attributeName attributeType azimuth base
baseFrequency baseProfile baseline-shift bbox begin bias by calcMode cap-height class clip clip-path clip-rule clipPathUnits color color-interpolation
color-interpolation-filters color-profile color-rendering contentScriptType contentStyleType cursor cx cy d descent diffuseConstant direction display
divisor dominant-baseline dur dx dy edgeMode elevation enable-background encoding end exponent externalResourcesRequired fill fill-opacity fill-rule
filter filterRes filterUnits flood-color flood-opacity font font-family font-size font-size-adjust font-stretch font-style font-variant font-weight
format from fx fy g1 g2 glyph-name glyph-orientation-horizontal glyph-orientation-vertical glyphRef gradientTransform gradientUnits hanging height
horiz-adv-x horiz-origin-x horiz-origin-y href id ideographic image-rendering in in2 intercept k k1 k2 k3 k4 kernelMatrix kernelUnitLength kerning
keyPoints keySplines keyTimes lang lengthAdjust letter-spacing lighting-color limitingConeAngle line-height local marker marker-end marker-mid
marker-start markerHeight markerUnits markerWidth mask maskContentUnits maskUnits mathematical max media method min mode name numOctaves offset
onabort onactivate onbegin onclick onend onerror onfocusin onfocusout onload onmousedown onmousemove onmouseout onmouseover onmouseup onrepeat
onresize onscroll onunload onzoom opacity operator order orient orientation origin overflow overline-position overline-thickness panose-1 path
pathLength patternContentUnits patternTransform patternUnits pointer-events points pointsAtX pointsAtY pointsAtZ preserveAlpha preserveAspectRatio
primitiveUnits r radius refX refY rendering-intent repeatCount repeatDur requiredExtensions requiredFeatures restart result role rotate rx ry scale
seed shape-rendering show slope space spacing specularConstant specularExponent spreadMethod standalone startOffset stdDeviation stemh stemv
stitchTiles stop-color stop-opacity strikethrough-position strikethrough-thickness string stroke stroke-dasharray stroke-dashoffset stroke-linecap
stroke-linejoin stroke-miterlimit stroke-opacity stroke-width style surfaceScale systemLanguage tableValues target targetX targetY text-anchor
text-decoration text-rendering textLength title to transform type u1 u2 underline-position underline-thickness unicode unicode-bidi unicode-range
units-per-em v-alphabetic v-hanging v-ideographic v-mathematical values version vert-adv-y vert-origin-x vert-origin-y viewBox viewTarget visibility
width widths word-spacing writing-mode x x-height x1 x2 xChannelSelector xlink xmlns y y1 y2 yChannelSelector z zoomAndPan'''
KIND = {'ElementId': ELEMENT_NAMES, 'AttributeId': ATTRIBUTE_NAMES}


def names_of(gen, en):
    """id -> name, in id order"""
    by = {variant(n): n for n in KIND[en].split()}
    vs = sorted(gen.ctx.fieldless[en].items(), key=lambda x: x[1])
    out = []
    for i, (v, d) in enumerate(vs):
        if d != i or v not in by:
            raise Unsupported('%s::%s is not a known name' % (en, v))
        out.append(by[v])
    return out


def extra(gen):
    t = ''
    for en in KIND:
        t += '#[verifier::opaque]\npub open spec fn names_%s() -> Seq<Seq<int>> { seq![%s] }\n' % (en, ', '.join(bytes_(n) for n in names_of(gen, en)))
    for name, en, key, disps, entries in gen.static_maps():
        ids = [i for _, i in entries]
        n = len(names_of(gen, en))
        where = [ids.index(i) if i in ids else -1 for i in range(n)]
        p = 'st_%s' % name
        t += '#[verifier::opaque]\npub open spec fn %s_disps() -> Seq<(int, int)> { seq![%s] }\n' % (p, ', '.join('(%dint, %dint)' % d for d in disps))
        t += '#[verifier::opaque]\npub open spec fn %s_bytes() -> Seq<Seq<int>> { seq![%s] }\n' % (p, ', '.join(bytes_(s) for s, _ in entries))
        t += '#[verifier::opaque]\npub open spec fn %s_ids() -> Seq<int> { seq![%s] }\n' % (p, ', '.join('%dint' % i for i in ids))
        t += '#[verifier::opaque]\npub open spec fn %s_where() -> Seq<int> { seq![%s] }\n' % (p, ', '.join('%dint' % i for i in where))
        t += ('pub open spec fn %s() -> SMap { SMap { key: %d, disps: %s_disps(), entries: Seq::new(%s_bytes().len(), |i: int| (of_utf8(%s_bytes()[i]), %s_ids()[i])) } }\n'
              % (p, key, p, p, p, p))
    return t


def units(gen):
    """one proof unit per static table: it is well formed, complete, and every name hashes to its own entry"""
    out = []
    for name, en, key, disps, entries in gen.static_maps():
        n = len(names_of(gen, en))
        p = 'st_' + name
        w = 'static %s: ' % name
        u = Unit('static ' + name)
        u.lines = [
            ('proof fn lemma_%s()' % p, None),
            ('    ensures table_ok(%s(), names_%s()), names_%s().len() == %d,' % (p, en, en, n), None),
            ('        forall|a: int, b: int| 0 <= a < %d && 0 <= b < %d && #[trigger] of_utf8(names_%s()[a]) == #[trigger] of_utf8(names_%s()[b]) ==> a == b' % (n, n, en, en), None),
            ('{', None),
            ('    assert(%s_bytes().len() == %d && %s_ids().len() == %d && %s_disps().len() == %d && names_%s().len() == %d) by (compute_only);' % (
                p, len(entries), p, len(entries), p, len(disps), en, n), w + 'sizes'),
            ('    assert(disps_ok(%s_disps(), %d)) by (compute_only);' % (p, len(disps)), w + 'displacements stay within the overflow bound'),
            ('    assert(rows_ok(%d, %s_disps(), %s_bytes(), %s_ids(), names_%s(), %d)) by (compute_only);' % (key, p, p, p, en, len(entries)),
             w + 'every row pairs an id with its name, and the name hashes to that row'),
            ('    assert(has_id_upto(%s_ids(), %s_where(), %d)) by (compute_only);' % (p, p, n), w + 'every id has a row'),
            ('    lemma_table(%s(), %s_bytes(), %s_ids(), %s_where(), names_%s());' % (p, p, p, p, en), w + 'the table is well formed'),
            ('    assert forall|a: int, b: int| 0 <= a < %d && 0 <= b < %d && #[trigger] of_utf8(names_%s()[a]) == #[trigger] of_utf8(names_%s()[b]) implies a == b by {' % (
                n, n, en, en), w + 'different ids have different names'),
            ('        lemma_distinct(%s(), names_%s(), a, b);' % (p, en), None),
            ('    }', None), ('}', None)]
        u.nobl = sum(1 for _, l in u.lines if l)
        out.append(u)
    return out


def table_lemmas(en, s=None):
    def f(gen):
        r = []
        for name, e, *_ in gen.static_maps():
            if e == en:
                r.append('lemma_st_%s();' % name)
                if s:
                    r.append('lemma_convert(st_%s(), names_%s(), %s);' % (name, en, s))
        return r
    return f


def contracts():
    out = []
    U32, U64 = '0xffff_ffff', '0xffff_ffff_ffff_ffff'
    out.append(C('hash', 'x: Seq<char>, key: int', ret='int', pure='sip13(0, key, utf8(x)) as int', footprint=[]))
    out.append(C('split', 'hash: int', ret='(int, int, int)', requires=['0 <= hash <= ' + U64],
                 pure='(hash % 0x200000, (hash / 0x200000) % 0x200000, (hash / 0x40000000000) % 0x200000)', footprint=[]))
    out.append(C('displace', 'f1: int, f2: int, d1: int, d2: int', ret='int', requires=['0 <= f1 < 0x200000', '0 <= f2 < 0x200000', '0 <= d1 <= 1000', '0 <= d2 <= 1000000'],
                 pure='d2 + f1 * d1 + f2', entry=['lemma_displace(f1, f2, d1, d2);'], footprint=[]))
    out.append(C('get_index', 'hash: int, disps: Seq<(int, int)>, len: int', ret='int',
                 requires=['0 <= hash <= ' + U64, 'small_disps(disps)', '0 < disps.len() <= ' + U32, '0 < len <= ' + U32],
                 entry=['lemma_index(hash, disps, len);'], pure='index_in(hash, disps, len)', footprint=[]))
    out.append(C('Map::get', 'self_: SMap, key: Seq<char>', ret='Option<int>', requires=['map_shape(self_)'],
                 entry=['lemma_index(sip13(0, self_.key, utf8(key)) as int, self_.disps, self_.entries.len() as int);'],
                 pure='map_get(self_, key)', footprint=[]))
    out.append(C('Map::key', 'self_: SMap, value: int', ret='Seq<char>', requires=['has_entry(self_, value)'],
                 ensures=['self_.entries.contains((ret, value))'], footprint=[]))
    for en in KIND:
        n = len(KIND[en].split())
        nm = 'names_%s()' % en
        out.append(C(en + '::from_str', 'text: Seq<char>', ret='Option<int>', entry=[table_lemmas(en, 'text')],
                     ensures=['ret is Some ==> 0 <= ret->0 < %d && text == of_utf8(%s[ret->0])' % (n, nm),
                              'forall|id: int| #![trigger %s[id]] 0 <= id < %d && text == of_utf8(%s[id]) ==> ret == Some(id)' % (nm, n, nm)], footprint=[]))
        out.append(C(en + '::as_str', 'self_: int', ret='Seq<char>', entry=['assume(0 <= self_ < %d); // a value of the enum' % n, table_lemmas(en), lambda g, en=en: ['assert(has_entry(st_%s(), self_));' % m[0] for m in g.static_maps() if m[1] == en]],
                     ensures=['ret == of_utf8(%s[self_])' % nm], footprint=[]))
    return {c.key: c for c in out}
