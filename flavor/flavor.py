#!/usr/bin/env python3
"""A small compiler for the Flavor descriptions in src/mg/media/mp4/*.fl.

The product generates src/mg/media/mp4/*.h and *.cpp with the external `flavor' tool (Makefile.am: flavor -x -l X.fl), which
is not installed here and cannot be fetched.  This translates the subset of the language these files use, so that the media
code can be built and run from the working tree.  Everything is emitted in the header; the .cpp only includes it.

  flavor.py OUTDIR FILE.fl...
"""
import os, re, sys

IDENT = r'[A-Za-z_]\w*'
PTYPES = r'(?:unsigned\s+int|unsigned\s+char|unsigned\s+short|int|bit|char|short)'
NTYPES = (r'(?:(?:unsigned\s+int|unsigned\s+char|unsigned\s+short|unsigned\s+long|unsigned|int|char|short|long|bool|float|'
          r'double|u?int(?:8|16|32|64)_t|TCHAR|BYTE)\b)')


class Err(Exception):
    pass


class Src:
    def __init__(self, text, name):
        self.t, self.p, self.name = text, 0, name

    def line(self):
        return self.t.count('\n', 0, self.p) + 1

    def eof(self):
        return self.p >= len(self.t)

    def err(self, m):
        raise Err('%s:%d: %s near %r' % (self.name, self.line(), m, self.t[self.p:self.p + 50]))

    def ws(self):
        while self.p < len(self.t):
            c = self.t[self.p]
            if c.isspace():
                self.p += 1
            elif self.t.startswith('//', self.p):
                e = self.t.find('\n', self.p)
                self.p = len(self.t) if e < 0 else e
            elif self.t.startswith('/*', self.p):
                e = self.t.find('*/', self.p + 2)
                if e < 0:
                    self.err('comment')
                self.p = e + 2
            else:
                return

    def at(self, s):
        return self.t.startswith(s, self.p)

    def m(self, rx):
        r = re.compile(rx).match(self.t, self.p)
        if r:
            self.p = r.end()
        return r

    def until(self, mark):
        e = self.t.find(mark, self.p)
        if e < 0:
            self.err('missing ' + mark)
        s = self.t[self.p:e]
        self.p = e + len(mark)
        return s

    def parens(self, o='(', c=')'):
        """balanced group starting here; returns the inside"""
        if self.t[self.p] != o:
            self.err('expected ' + o)
        d, i = 0, self.p
        while i < len(self.t):
            ch = self.t[i]
            if ch == o:
                d += 1
            elif ch == c:
                d -= 1
                if d == 0:
                    s = self.t[self.p + 1:i]
                    self.p = i + 1
                    return s
            i += 1
        self.err('unbalanced')

    def stmt(self):
        """up to the next ; outside braces/brackets, without comments"""
        out, d = [], 0
        while self.p < len(self.t):
            if self.at('//'):
                e = self.t.find('\n', self.p)
                self.p = e
                continue
            if self.at('/*'):
                self.p = self.t.find('*/', self.p) + 2
                continue
            if self.at("%g{") or self.at("%p{") or self.at("%{"):
                self.err('verbatim code inside a statement')
            ch = self.t[self.p]
            if ch in '({[':
                d += 1
            if ch in ')}]':
                d -= 1
            if ch == ';' and d == 0:
                self.p += 1
                return ' '.join(''.join(out).split())
            out.append(ch)
            self.p += 1
        self.err('missing ;')


def binlit(s):
    return re.sub(r'\b0b([01][01.]*)', lambda m: '0x%X' % int(m.group(1).replace('.', ''), 2), s)


def paren_end(s, i):
    d = 0
    for k in range(i, len(s)):
        if s[k] == '(':
            d += 1
        elif s[k] == ')':
            d -= 1
            if d == 0:
                return k
    return -1


class Class:
    def __init__(self, comp, name, params, base, bargs, aligned):
        self.comp, self.name, self.params, self.base, self.bargs, self.aligned = comp, name, params, base, bargs, aligned
        self.members = {}      # name -> kind ('var', 'ptr', 'arr')
        self.decl, self.get, self.put = [], [], []
        self.dims = 0

    # -- expressions
    def ex(self, e):
        e = binlit(e)
        for n in list(self.ptrs()):
            e = re.sub(r'(?<![\w.>])%s\s*\.' % n, n + '->', e)
        e = re.sub(r'(?<![\w.>])(nextbits|skipbits)\s*\(', r'var_bs.\1(', e)
        # lengths of objects just read: only the program stream map uses them, and nothing uses that
        e = re.sub(r'(?<![\w.>])lengthof\s*\([^)]*\)', '0', e)
        e = re.sub(r'(?<![\w.>])numbits\s*\(\s*\)', 'var_bs.getpos()', e)
        return e

    def ptrs(self):
        for n, k in self.members.items():
            if k == 'ptr':
                yield n
        for t, n in self.params:
            if t in self.comp.classes:
                yield n

    def member(self, name, text, kind):
        if name in self.members:
            return
        self.members[name] = kind
        self.decl.append('  ' + text + '\n')

    def both(self, s):
        self.get.append(s)
        self.put.append(s)

    # -- body
    def body(self, s):
        while True:
            s.ws()
            if s.eof():
                return
            if s.m(r'%\.c\{'):
                self.decl.append(s.until('%.c}'))
            elif s.m(r'%\.j\{'):
                s.until('%.j}')
            elif s.m(r'%g\{'):
                self.get.append(' ' + s.until('%g}') + '\n')
                self.put.append(';\n')
            elif s.m(r'%p\{'):
                self.put.append(' ' + s.until('%p}') + '\n')
                self.get.append(';\n')
            elif s.m(r'%\{'):
                self.decl.append(s.until('%}'))
            elif s.m(r'%pragma\s+array\s*=\s*(\d+).*'):
                pass
            elif s.at('{') or s.at('}') or s.at(';'):
                self.both(s.t[s.p] + '\n')
                s.p += 1
            else:
                r = s.m(r'(if|while|for|switch)\b\s*(?=\()')
                if r:
                    e = s.parens()
                    self.both('%s (%s)\n' % (r.group(1), self.ex(e)))
                    continue
                if s.m(r'else\b'):
                    self.both('else ')
                    continue
                if s.m(r'do\b'):
                    self.both('do ')
                    continue
                r = s.m(r'(case\s+[^:;]+|default\s*):')
                if r:
                    self.both(r.group(0) + '\n')
                    continue
                self.statement(s.stmt(), s)

    def statement(self, t, s):
        if not t:
            return
        if self.parsable(t, s) or self.klass(t, s) or self.plain(t, s):
            return
        if t in ('break', 'continue'):
            self.both(t + ';\n')
            return
        if t.startswith('nextcode'):
            m = re.match(r'nextcode\(\s*aligned\((\d+)\)\s*,\s*(.*)\)$', t)
            if not m:
                s.err('nextcode')
            code = m.group(2)
            n = 8 * ((len(code) - 2) // 2)
            self.get.append('var_bs.nextcode(%s, %d, %s);\n' % (code, n, m.group(1)))
            return
        m = re.match(r'skipbits\s*\((.*)\)$', t)
        if m:
            e = self.ex(m.group(1))
            self.get.append('var_bs.skipbits(%s);\n' % e)
            self.put.append('{ int _sk = (%s); for(; _sk > 0; _sk--) var_bs.putbits(0, 1); }\n' % e)
            return
        self.both(self.ex(t) + ';\n')

    def arrsize(self, e):
        return e if re.match(r'^\s*(0x[0-9a-fA-F]+|\d+)\s*$', e) or e.strip() in self.comp.consts else str(self.comp.array)

    def parsable(self, t, s):
        m = re.match(r'^(?:aligned\s*\(\s*(\d+)\s*\)\s*)?(const\s+)?(little\s+)?(%s)\s*\(' % PTYPES, t)
        if not m:
            return False
        al, const, little, ty = m.groups()
        e = paren_end(t, m.end() - 1)
        width = t[m.end():e].strip()
        rest = t[e + 1:].strip()
        m = re.match(r'^(\*?)\s*(%s)\s*((?:\[.*?\]+\s*)*)\s*(?:=\s*(.*))?$' % IDENT, rest)
        if not m:
            s.err('cannot read field ' + t)
        peek, name, dims, val = m.groups()
        signed = ty in ('int', 'short')
        cty = {'bit': 'unsigned int', 'short': 'short'}.get(ty, ty)
        g, p = [], []
        if al:
            g.append('var_bs.align(%s);' % al)
            p.append('var_bs.align(%s);' % al)
        # dimensions
        idx, loops, sizes = '', [], []
        pos = 0
        while pos < len(dims):
            if dims[pos].isspace():
                pos += 1
                continue
            d, k = 0, pos
            while True:
                if dims[k] == '[':
                    d += 1
                elif dims[k] == ']':
                    d -= 1
                    if d == 0:
                        break
                k += 1
            inner = dims[pos + 1:k]
            pos = k + 1
            if inner.startswith('['):
                idx += '[' + self.ex(inner[1:-1].strip()) + ']'
                sizes.append(str(self.comp.array))
            else:
                v = 'var_dim%d' % len(loops)
                loops.append((v, self.ex(inner)))
                idx += '[' + v + ']'
                sizes.append(self.arrsize(inner))
        if sizes:
            self.member(name, '%s %s%s;' % (cty, name, ''.join('[%s]' % z for z in sizes)), 'arr')
        else:
            self.member(name, '%s %s;' % (cty, name), 'var')
        if '++' in idx or '--' in idx:
            g.append('{ %s & var_elem = %s%s;' % (cty, name, idx))
            p.append('{ %s & var_elem = %s%s;' % (cty, name, idx))
            ref = 'var_elem'
        else:
            ref = name + idx
        for v, e in loops:
            line = '{ %s_end = (%s); for(int %s = 0; %s < %s_end; %s++) {' % (v, e, v, v, v, v)
            g.append(line)
            p.append(line)
        if width in self.comp.maps:
            fn = width
            g.append('%s = %s_get(var_bs);' % (ref, fn))
            p.append('%s_put(var_bs, %s);' % (fn, ref))
        else:
            w = self.ex(width)
            if peek:
                g.append('%s = var_bs.nextbits(%s);' % (ref, w))
            elif little:
                g.append('%s = var_bs.little_getbits(%s);' % (ref, w))
                if val is not None:
                    p.append('%s = %s;' % (ref, self.ex(val)))
                p.append('var_bs.little_putbits(%s, %s);' % (ref, w))
            else:
                g.append('%s = var_bs.%s(%s);' % (ref, 'sgetbits' if signed else 'getbits', w))
                if val is not None:
                    p.append('%s = %s;' % (ref, self.ex(val)))
                p.append('var_bs.putbits(%s, %s);' % (ref, w))
        for _ in loops:
            g.append('} }')
            p.append('} }')
        if ref == 'var_elem':
            g.append('}')
            p.append('}')
        self.get.append('{ ' + ' '.join(g) + ' }\n')
        self.put.append('{ ' + ' '.join(p) + ' }\n')
        return True

    def klass(self, t, s):
        m = re.match(r'^(?:aligned\s*\(\s*(\d+)\s*\)\s*)?(%s)\s+(%s)\s*(\(.*\))?\s*(\[.*\])?$' % (IDENT, IDENT), t)
        if not m or m.group(2) not in self.comp.classes:
            return False
        al, cl, name, args, dims = m.groups()
        if dims:
            s.err('array of class objects')
        a = ''
        if args and args[1:-1].strip():
            a = ', ' + self.ex(args[1:-1])
        self.member(name, '%s * %s;' % (cl, name), 'ptr')
        self.get.append('{ std::unique_ptr<%s> var_new(new %s); var_new->get(var_bs%s); %s = var_new.release(); }\n' % (cl, cl, a, name))
        self.put.append('{ %s->put(var_bs%s); }\n' % (name, a))
        return True

    def plain(self, t, s):
        m = re.match(r'^(const\s+)?(%s)\s*(%s)\s*((?:\[[^\]]*\]\s*)*)\s*(?:=\s*(.*))?$' % (NTYPES, IDENT), t)
        if not m:
            return False
        const, ty, name, dims, val = m.groups()
        ds = [d for d in re.findall(r'\[([^\]]*)\]', dims)]
        if ds:
            self.member(name, '%s %s%s;' % (ty, name, ''.join('[%s]' % self.arrsize(d) for d in ds)), 'arr')
            if val is not None:
                items = val.strip()[1:-1].split(',')
                self.both('{ ' + ' '.join('%s[%d] = %s;' % (name, i, self.ex(v.strip())) for i, v in enumerate(items)) + ' }\n')
        else:
            self.member(name, '%s %s;' % (ty, name), 'var')
            if val is not None:
                self.both('%s = %s;\n' % (name, self.ex(val)))
        return True

    def emit(self):
        ps = ''.join(', ' + (('const %s * %s' % (t, n)) if t in self.comp.classes else '%s %s' % (t, n))
                     for t, n in self.params)
        o = ['class %s%s\n{\npublic:\n' % (self.name, (' : public ' + self.base) if self.base else '')]
        o += self.decl
        for fn, code in (('get', self.get), ('put', self.put)):
            o.append('\npublic:\n  virtual int %s(IBitstream & var_bs%s)\n  {\n    int var_ret = 0, var_dim0_end = 0, var_dim1_end = 0;\n    (void)var_ret; (void)var_dim0_end; (void)var_dim1_end;\n' % (fn, ps))
            if self.base:
                o.append('    %s::%s(var_bs%s);\n' % (self.base, fn, self.bargs and ', ' + self.bargs or ''))
            if self.aligned:
                o.append('    var_bs.align(%s);\n' % self.aligned)
            o += code
            o.append('    return var_ret;\n  }\n')
        o.append('};\n\n')
        return ''.join(o)


class Compiler:
    def __init__(self):
        self.classes, self.maps, self.consts, self.array = set(), {}, set(), 64

    def scan(self, text):
        text = re.sub(r'//.*', '', re.sub(r'/\*.*?\*/', '', text, flags=re.S))
        for m in re.finditer(r'^\s*(?:aligned\s*\(\d+\)\s*)?(?:abstract\s+)?class\s+(%s)' % IDENT, text, re.M):
            self.classes.add(m.group(1))
        for m in re.finditer(r'^\s*map\s+(%s)' % IDENT, text, re.M):
            self.maps[m.group(1)] = 1
        for m in re.finditer(r'^const\s+unsigned\s+int\s+(%s)' % IDENT, text, re.M):
            self.consts.add(m.group(1))

    def compile(self, path):
        name = os.path.splitext(os.path.basename(path))[0]
        s = Src(open(path, encoding='latin-1').read().replace('\r\n', '\n'), path)
        self.array = 64
        guard = 'GENERATED_FLAVOR_%s_H' % name.upper()
        o = ['/* generated from %s.fl */\n#ifndef %s\n#define %s\n#include <memory>\n#include "TBitstream.h"\n' % (name, guard, guard)]
        while True:
            s.ws()
            if s.eof():
                break
            if s.m(r'%\.c\{'):
                o.append(s.until('%.c}'))
            elif s.m(r'%\.j\{'):
                s.until('%.j}')
            elif s.m(r'%\{'):
                o.append(s.until('%}'))
            elif s.at('%pragma'):
                r = s.m(r'%pragma[^\n]*')
                a = re.search(r'array\s*=\s*(\d+)', r.group(0))
                if a:
                    self.array = int(a.group(1))
            elif s.at('%include'):
                r = s.m(r'%include\s+"([^"]+)\.fl"[^\n]*')
                o.append('#include "mp4/%s.h"\n' % r.group(1))
            elif s.m(r'const\b'):
                o.append('static const ' + binlit(s.stmt()) + ';\n')
            elif s.m(r'map\b'):
                o.append(self.map(s))
            elif s.m(r';'):
                pass
            else:
                o.append(self.klass(s))
        o.append('#endif\n')
        return name, ''.join(o)

    def map(self, s):
        s.ws()
        name = s.m(IDENT).group(0)
        s.ws()
        ty = s.parens()
        s.ws()
        items = [x.strip() for x in s.parens('{', '}').split(',')]
        pairs = [(items[i][2:], items[i + 1]) for i in range(0, len(items) - 1, 2)]
        g = ['inline %s %s_get(IBitstream & var_bs) {\n' % (ty, name)]
        for n in sorted({len(c) for c, _ in pairs}):
            g.append('  switch(var_bs.nextbits(%d)) {\n' % n)
            for c, v in pairs:
                if len(c) == n:
                    g.append('  case 0x%X: var_bs.skipbits(%d); return %s;\n' % (int(c, 2), n, v))
            g.append('  }\n')
        mx = max(len(c) for c, _ in pairs)
        # an unknown code: the tool reports it and goes on
        g.append('  var_bs.skipbits(%d); return 0;\n}\n' % mx)
        g.append('inline void %s_put(IBitstream & var_bs, %s v) {\n  switch(v) {\n' % (name, ty))
        for c, v in pairs:
            g.append('  case %s: var_bs.putbits(0x%X, %d); return;\n' % (v, int(c, 2), len(c)))
        g.append('  }\n  var_bs.putbits(0x%X, %d);\n}\n' % ((1 << mx) - 1, mx))
        return ''.join(g)

    def klass(self, s):
        m = s.m(r'(?:aligned\s*\(\s*(\d+)\s*\)\s*)?(abstract\s+)?class\s+(%s)\s*' % IDENT)
        if not m:
            s.err('expected a class')
        aligned, abstract, name = m.groups()
        params = []
        if s.at('('):
            for p in s.parens().split(','):
                p = p.strip()
                if p:
                    q = re.match(r'^(?:const\s+)?(.*?)\s*(%s)$' % IDENT, p)
                    params.append((q.group(1).strip(), q.group(2)))
        s.ws()
        base, bargs, tag = None, None, None
        m = s.m(r'extends\s+(%s)\s*' % IDENT)
        if m:
            base = m.group(1)
            if s.at('('):
                bargs = s.parens()
        s.ws()
        if s.at(':'):
            s.p += 1
            r = s.m(r'\s*([^{]*)')
            tag = re.sub(r'//.*', '', r.group(1)).strip()
        s.ws()
        start = s.line()
        # find the end of the class: balanced braces outside comments
        inner = self.block(s)
        c = Class(self, name, params, base, bargs, aligned)
        if tag and not abstract:
            c.statement(re.sub(r'=\s*(\S+)\s*\.\.\s*\S+', '', tag), s)
        sub = Src(inner, s.name + '(class %s, line %d)' % (name, start))
        c.body(sub)
        return c.emit()

    def block(self, s):
        if not s.at('{'):
            s.err('expected {')
        i, d = s.p, 0
        t = s.t
        while i < len(t):
            if t.startswith('//', i):
                i = t.find('\n', i)
                continue
            if t.startswith('/*', i):
                i = t.find('*/', i) + 2
                continue
            if t[i] == '"':
                i += 1
                while t[i] != '"':
                    i += 2 if t[i] == '\\' else 1
            elif t[i] == "'" and (t[i + 2] == "'" or t[i + 3] == "'"):
                i = t.find("'", i + (2 if t[i + 1] == '\\' else 1))
            elif t[i] == '%' and re.match(r'%(\.c|\.j|g|p)?[{}]', t[i:i + 4]):
                i += re.match(r'%(\.c|\.j|g|p)?[{}]', t[i:i + 4]).end()
                continue
            elif t[i] == '{':
                d += 1
            elif t[i] == '}':
                d -= 1
                if d == 0:
                    r = t[s.p + 1:i]
                    s.p = i + 1
                    return r
            i += 1
        s.err('unbalanced class body')


def main(out, files):
    os.makedirs(out, exist_ok=True)
    comp = Compiler()
    for f in files:
        comp.scan(open(f, encoding='latin-1').read().replace('\r\n', '\n'))
    for f in files:
        name, text = comp.compile(f)
        for p, content in ((name + '.h', text), (name + '.cpp', '#include "mp4/%s.h"\n' % name)):
            p = os.path.join(out, p)
            if not os.path.exists(p) or open(p, encoding='latin-1').read() != content:
                open(p, 'w', encoding='latin-1').write(content)


if __name__ == '__main__':
    try:
        main(sys.argv[1], sys.argv[2:])
    except Err as e:
        print('flavor: ' + str(e), file=sys.stderr)
        sys.exit(1)
