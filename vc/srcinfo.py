"""Facts read from the Rust source: struct fields, enum variants, impl headers."""
import os
import re


class Src:
    def __init__(self, root):
        self.files = {}
        for d, _, fs in os.walk(os.path.join(root, 'src')):
            for f in fs:
                if f.endswith('.rs'):
                    p = os.path.join(d, f)
                    self.files[os.path.relpath(p, root)] = open(p, encoding='utf-8').read()
        self.structs = {}   # name -> [(field, type)]  (tuple structs: field names '0','1',..)
        self.enums = {}     # name -> [(variant, nfields)]
        for path, text in self.files.items():
            self.scan(path, text)

    def scan(self, path, text):
        t = re.sub(r'//[^\n]*', '', text)
        mod = os.path.basename(path)[:-3]
        for m in re.finditer(r'\b(struct|enum)\s+(\w+)\s*(<[^{(;]*?>)?\s*(where[^{(]*)?([({;])', t):
            kind, name, br = m.group(1), m.group(2), m.group(5)
            key = name
            if name == 'NodeData' and mod == 'tree':
                key = 'TreeData'
            if br == ';':
                self.structs[key] = []
                continue
            i = m.end() - 1
            j = self.close(t, i)
            body = t[i + 1:j]
            body = re.sub(r'#\[[^\]]*\]', '', body)
            items = self.split(body)
            if kind == 'struct':
                if br == '(':
                    self.structs[key] = [(str(k), re.sub(r'^pub(\([^)]*\))?\s+', '', x)) for k, x in enumerate(items)]
                else:
                    fs = []
                    for x in items:
                        mm = re.match(r'^(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$', x, re.S)
                        fs.append((mm.group(1), mm.group(2)))
                    self.structs[key] = fs
            else:
                vs = []
                for x in items:
                    mm = re.match(r'^(\w+)\s*(.*)$', x, re.S)
                    rest = mm.group(2).strip()
                    nf = 0
                    if rest.startswith('('):
                        nf = len(self.split(rest[1:-1]))
                    vs.append((mm.group(1), nf))
                self.enums[key] = vs

    @staticmethod
    def close(t, i):
        d = 0
        while True:
            if t[i] in '({[':
                d += 1
            elif t[i] in ')}]':
                d -= 1
                if d == 0:
                    return i
            i += 1

    @staticmethod
    def split(s):
        out, d, cur = [], 0, ''
        for c in s:
            if c in '([{<':
                d += 1
            elif c in ')]}>':
                d -= 1
            if c == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += c
        if cur.strip():
            out.append(cur.strip())
        return out

    def impl_header(self, loc):
        """loc 'src/tree.rs:74:1: 74:16' -> text of the impl header, or of the derive trait"""
        m = re.match(r'^(.*\.rs):(\d+):(\d+): (\d+):(\d+)$', loc)
        if not m or m.group(1) not in self.files:
            return None, None
        lines = self.files[m.group(1)].split('\n')
        l1, c1, l2, c2 = map(int, m.groups()[1:])
        if l1 == l2:
            txt = lines[l1 - 1][c1 - 1:c2 - 1]
        else:
            txt = '\n'.join([lines[l1 - 1][c1 - 1:]] + lines[l1:l2 - 1] + [lines[l2 - 1][:c2 - 1]])
        if txt.startswith('impl'):
            return 'impl', txt
        # derive: the type is the next struct/enum
        for k in range(l1 - 1, min(l1 + 60, len(lines))):
            mm = re.search(r'\b(struct|enum)\s+(\w+)', lines[k])
            if mm:
                return 'derive', (txt, mm.group(2))
        return None, None
