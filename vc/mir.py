"""Parser for rustc's textual MIR (-Zunpretty=mir).

Only the forms that occur in svgdom's MIR are accepted; anything else becomes
('unsupported', text) and makes the function using it undecidable (never an alarm)."""
import re

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}


def find_close(s, i):
    """index of the bracket closing s[i]; '->' is not a closing bracket; string literals are skipped"""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                if s[i] == '\\':
                    i += 1
                i += 1
        elif c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            j = s.index("'", i + 2)
            i = j
        elif c in '([{':
            depth += 1
        elif c == '<' :
            depth += 1
        elif c in ')]}':
            depth -= 1
            if depth == 0:
                return i
        elif c == '>' and s[i - 1] not in '-=':
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise ValueError('unbalanced: ' + s)


def split_top(s, sep=','):
    out, start, i = [], 0, 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"' or c in '([{<' or (c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\')):
            if c in '([{<':
                i = find_close(s, i)
            elif c == '"':
                i += 1
                while s[i] != '"':
                    if s[i] == '\\':
                        i += 1
                    i += 1
            else:
                i = s.index("'", i + 2)
        elif c == sep:
            out.append(s[start:i].strip())
            start = i + 1
        i += 1
    last = s[start:].strip()
    if last:
        out.append(last)
    return out


# ------------------------------------------------------------------ places, operands

def parse_place(s):
    """-> ('place', local:int, [proj...]); proj = ('deref',) | ('field', n, ty) | ('variant', name) | ('index', local) | ('const_index', n, from_end)"""
    s = s.strip()
    m = re.match(r'^_(\d+)$', s)
    if m:
        return ('place', int(m.group(1)), [])
    if s.endswith(']') and not s.startswith('['):
        # P[_n] or P[n of m]
        depth = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ']':
                depth += 1
            elif s[i] == '[':
                depth -= 1
                if depth == 0:
                    break
        base = parse_place(s[:i])
        inner = s[i + 1:-1]
        m = re.match(r'^_(\d+)$', inner)
        if m:
            return ('place', base[1], base[2] + [('index', int(m.group(1)))])
        m = re.match(r'^(-?)(\d+) of (\d+)$', inner)
        if m:
            return ('place', base[1], base[2] + [('const_index', int(m.group(2)), bool(m.group(1)))])
        raise ValueError('place ' + s)
    if s.startswith('(') and find_close(s, 0) == len(s) - 1:
        inner = s[1:-1]
        if inner.startswith('*'):
            b = parse_place(inner[1:])
            return ('place', b[1], b[2] + [('deref',)])
        # (P.F: T)   or (P as Variant)
        if inner.startswith('('):
            j = find_close(inner, 0) + 1
            while j < len(inner) and inner[j] == '[':
                j = find_close(inner, j) + 1
        else:
            m = re.match(r'^_\d+', inner)
            j = m.end()
            while j < len(inner) and inner[j] == '[':
                j = find_close(inner, j) + 1
        b = parse_place(inner[:j])
        rest = inner[j:]
        m = re.match(r'^\.(\d+): (.*)$', rest, re.S)
        if m:
            return ('place', b[1], b[2] + [('field', int(m.group(1)), m.group(2))])
        m = re.match(r'^ as (?:variant#)?(\w+)$', rest)
        if m:
            return ('place', b[1], b[2] + [('variant', m.group(1))])
    raise ValueError('place ' + s)


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    if re.match(r'^[A-Za-z_<]', s):
        return ('fn', s)
    raise ValueError('operand ' + s)


BINOPS = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr',
          'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked', 'SubUnchecked', 'Cmp'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}


def parse_rvalue(s):
    s = s.strip()
    m = re.match(r'^(\w+)\(', s)
    if m and s.endswith(')') and find_close(s, m.end() - 1) == len(s) - 1:
        op = m.group(1)
        args = split_top(s[m.end():-1])
        if op in BINOPS and len(args) == 2:
            return ('bin', op, parse_operand(args[0]), parse_operand(args[1]))
        if op in UNOPS and len(args) == 1:
            return ('un', op, parse_operand(args[0]))
        if op == 'discriminant':
            return ('disc', parse_place(args[0]))
        if op == 'Len':
            return ('len', parse_place(args[0]))
        if op == 'CopyForDeref':
            return ('use', ('copy', parse_place(args[0])))
    if s.startswith('&mut '):
        return ('refmut', parse_place(s[5:]))
    if s.startswith('&raw const (fake) '):
        return ('ref', parse_place(s[len('&raw const (fake) '):]))
    if s.startswith('&raw ') or s.startswith('&fake '):
        return ('unsupported', s)
    if s.startswith('&'):
        return ('ref', parse_place(s[1:]))
    if s.startswith('deref_copy '):
        return ('use', ('copy', parse_place(s[11:])))
    m = re.match(r'^(.*) as (.*) \((PointerCoercion|IntToInt|Transmute|IntToFloat|FloatToInt|FloatToFloat|PtrToPtr)(.*)\)$', s)
    if m:
        return ('cast', parse_operand(m.group(1)), m.group(2), m.group(3))
    if re.match(r'^(no_retag |move |copy |const )', s):
        return ('use', parse_operand(s))
    if s.startswith('('):
        assert find_close(s, 0) == len(s) - 1
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('['):
        inner = s[1:-1]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('repeat', parse_operand(parts[0]), parts[1])
        return ('array', [parse_operand(x) for x in split_top(inner)])
    m = re.match(r'^(\{closure@[^}]*\})(.*)$', s)
    if m:
        rest = m.group(2).strip()
        caps = []
        if rest:
            for f in split_top(rest[1:-1].strip()):
                k, v = f.split(': ', 1)
                caps.append((k, parse_operand(v)))
        return ('closure', m.group(1), caps)
    # aggregate:  Path { f: op }  |  Path(op, ..)  |  Path
    if s.endswith('}'):
        i = s.index(' {')
        fs = []
        for f in split_top(s[i + 2:-1].strip()):
            k, v = f.split(': ', 1)
            fs.append((k, parse_operand(v)))
        return ('struct', s[:i], fs)
    if s.endswith(')'):
        # last top-level paren group
        i = last_group(s)
        return ('ctor', s[:i], [parse_operand(x) for x in split_top(s[i + 1:-1])])
    return ('ctor', s, [])


def last_group(s):
    """index of the '(' that matches the final ')'"""
    i = 0
    n = len(s)
    last = None
    while i < n:
        c = s[i]
        if c in '([{<':
            j = find_close(s, i)
            if c == '(' and j == n - 1:
                return i
            i = j
        elif c == '"':
            i += 1
            while s[i] != '"':
                if s[i] == '\\':
                    i += 1
                i += 1
        i += 1
    raise ValueError('group ' + s)


# ------------------------------------------------------------------ bodies

class Body:
    def __init__(self, name, header):
        self.name = name
        self.header = header
        self.params = []       # [(local, type)]
        self.ret = None
        self.locals = {}       # n -> type
        self.debug = {}        # name -> [place]   (in order of appearance)
        self.blocks = {}       # n -> (stmts, term)
        self.cleanup = set()
        self.src = None
        self.text = ''
        self.error = None


def parse_term(s):
    s = s.strip()
    m = re.match(r'^goto -> bb(\d+)$', s)
    if m:
        return ('goto', int(m.group(1)))
    if s == 'return':
        return ('return',)
    if s in ('unreachable', 'resume') or s.startswith('terminate'):
        return (s.split('(')[0],)
    m = re.match(r'^switchInt\((.*)\) -> \[(.*)\]$', s)
    if m:
        arms = []
        for a in m.group(2).split(', '):
            k, b = a.split(': ')
            arms.append((None if k == 'otherwise' else int(k), int(b[2:])))
        return ('switch', parse_operand(m.group(1)), arms)
    m = re.match(r'^drop\((.*)\) -> \[return: bb(\d+), unwind.*\]$', s)
    if m:
        return ('drop', parse_place(m.group(1)), int(m.group(2)))
    m = re.match(r'^assert\((.*)\) -> \[success: bb(\d+), unwind.*\]$', s)
    if m:
        args = split_top(m.group(1))
        c = args[0]
        neg = c.startswith('!')
        return ('assert', parse_operand(c[1:] if neg else c), not neg, args[1], [parse_operand(a) for a in args[2:]], int(m.group(2)))
    m = re.match(r'^(.*?) = (.*) -> (\[return: bb(\d+), unwind.*\]|unwind .*|bb\d+)$', s)
    if m:
        dest = parse_place(m.group(1))
        call = m.group(2)
        i = last_group(call)
        args = [parse_operand(a) for a in split_top(call[i + 1:-1])]
        return ('call', dest, call[:i], args, int(m.group(4)) if m.group(4) else None)
    raise ValueError('terminator ' + s)


def parse_stmt(s):
    s = s.strip()
    if re.match(r'^(StorageLive|StorageDead|nop|FakeRead|PlaceMention|AscribeUserType|Coverage|ConstEvalCounter|BackwardIncompatibleDropHint)', s):
        return None
    m = re.match(r'^(.*?) = (.*)$', s, re.S)
    if not m:
        raise ValueError('stmt ' + s)
    return ('assign', parse_place(m.group(1)), parse_rvalue(m.group(2)))


def apart(lines):
    """closures that a macro makes at the same place of the source get names of their own (a function's closures follow it)"""
    seen = {}
    for l in lines:
        m = re.match(r'^fn .*\{closure#\d+\}\(_1: (?:&|&mut )?(\{closure@[^}]*\})', l)
        if m:
            seen[m.group(1)] = seen.get(m.group(1), 0) + 1
    twice = [k for k, c in seen.items() if c > 1]
    g = 0
    if twice:
        for i, l in enumerate(lines):
            if l.startswith('fn ') and '{closure#' not in l.split('(')[0]:
                g += 1
            if '{closure@' in l:
                for k in twice:
                    l = l.replace(k, k[:-1] + '#%d}' % g)
                lines[i] = l


def parse(text):
    """-> dict name -> [Body]; promoted constants under their own name"""
    bodies = {}
    allocs = {}
    lines = text.split('\n')
    n = len(lines)
    apart(lines)
    i = 0
    while i < n:
        l = lines[i]
        m = re.match(r'^(fn|const|static) (.*)\{$', l)
        ma = re.match(r'^(alloc\d+) \(', l)
        if ma:
            j = i
            while j < n and lines[j] != '}':
                j += 1
            allocs[ma.group(1)] = lines[i:j + 1]
            i = j + 1
            continue
        mc = re.match(r'^(const|static) (.*): (\w+) = const (.*);$', l)
        if mc:
            b = Body(mc.group(2), l)
            b.ret = mc.group(3)
            b.locals[0] = b.ret
            b.blocks[0] = ([('assign', ('place', 0, []), ('use', ('const', mc.group(4))))], ('return',))
            bodies.setdefault(b.name, []).append(b)
            i += 1
            continue
        if not m:
            i += 1
            continue
        j = i + 1
        while lines[j] != '}':
            j += 1
        body = parse_body(m.group(1), m.group(2).strip(), lines[i + 1:j])
        body.text = '\n'.join(lines[i:j + 1])
        bodies.setdefault(body.name, []).append(body)
        i = j + 1
    return bodies, allocs


def parse_body(kind, header, lines):
    if kind == 'fn':
        # NAME(params) -> RET     NAME may contain "<impl at src/x.rs:1:2: 3:4>"
        k = 0
        while True:
            if header[k] == '<':
                k = find_close(header, k) + 1
                continue
            if header[k] == '{':
                k = find_close(header, k) + 1
                continue
            if header[k] == '(':
                break
            k += 1
        name = header[:k]
        e = find_close(header, k)
        b = Body(name, header)
        for p in split_top(header[k + 1:e]):
            m = re.match(r'^_(\d+): (.*)$', p, re.S)
            b.params.append((int(m.group(1)), m.group(2)))
            b.locals[int(m.group(1))] = m.group(2)
        m = re.match(r'^ -> (.*)$', header[e + 1:])
        b.ret = m.group(1) if m else '()'
    else:
        m = re.match(r'^(.*): (.*) =$', header)
        hdr = header[:-2].rstrip() if header.endswith('=') else header
        # the type starts after the last top-level ': '
        pos = None
        k = 0
        while k < len(hdr):
            if hdr[k] in '<{([':
                k = find_close(hdr, k)
            elif hdr[k] == ':' and hdr[k + 1:k + 2] == ' ':
                pos = k
                break
            k += 1
        b = Body(hdr[:pos], header)
        b.ret = hdr[pos + 2:]
    cur = None
    k = 0
    while k < len(lines):
        l = lines[k].strip()
        k += 1
        if not l or l.startswith('//') or l.startswith('scope ') or l == '}':
            if l == '}' and cur is not None and lines[k - 1].startswith('    }') and not lines[k - 1].startswith('     '):
                cur = None
            continue
        m = re.match(r'^let (?:mut )?_(\d+): (.*);$', l)
        if m:
            b.locals[int(m.group(1))] = m.group(2)
            continue
        m = re.match(r'^debug (\w+) => (.*);$', l)
        if m:
            try:
                pl = parse_place(m.group(2))
            except Exception:
                pl = None
            b.debug.setdefault(m.group(1), []).append(pl)
            continue
        m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', l)
        if m:
            cur = int(m.group(1))
            if m.group(2):
                b.cleanup.add(cur)
            b.blocks[cur] = ([], None)
            continue
        if cur is None:
            continue
        if cur in b.cleanup:
            continue
        while not l.endswith(';'):
            l += '\n' + lines[k]
            k += 1
        l = l[:-1]
        if re.match(r'^(goto|return|unreachable|resume|switchInt|drop|assert)\b', l) or re.search(r' -> (\[return: bb|unwind |bb\d+$)', l):
            try:
                b.blocks[cur] = (b.blocks[cur][0], parse_term(l))
            except Exception as ex:
                b.blocks[cur] = (b.blocks[cur][0], ('unsupported', l + ' // ' + str(ex)))
        else:
            try:
                st = parse_stmt(l)
            except Exception as ex:
                st = ('unsupported', l + ' // ' + str(ex))
            if st:
                b.blocks[cur][0].append(st)
    return b


if __name__ == '__main__':
    import sys
    bodies, allocs = parse(open(sys.argv[1]).read())
    bad = 0
    for name, bs in bodies.items():
        for b in bs:
            for bn, (st, t) in b.blocks.items():
                if bn in b.cleanup:
                    continue
                for x in st + [t]:
                    if x is None or x[0] == 'unsupported' or (x[0] == 'assign' and x[2][0] == 'unsupported'):
                        bad += 1
                        print(name, bn, x)
    print(len(bodies), 'bodies', bad, 'unsupported', len(allocs))
