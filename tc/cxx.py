"""A small C++ front end for the sources under src/ and include/: lexer, conditional compilation with
_OPENMP defined, and a recursive-descent parser producing a syntax tree of every function body,
class and free declaration.  It covers the subset of C++ this code base uses; what it cannot parse is
an error (AnalysisBroken), never skipped silently.
"""
import os
import re

from .pyrepo import AnalysisBroken, REPO

TOK = re.compile(r'''
  (?P<ws>[ \t\r\f\v]+)
 |(?P<nl>\n)
 |(?P<cont>\\\n)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*.*?\*/)
 |(?P<str>"(?:\\.|[^"\\])*")
 |(?P<chr>'(?:\\.|[^'\\])')
 |(?P<num>(?:0[xX][0-9a-fA-F]+|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)[uUlLfF]*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<hash>\#)
 |(?P<op><<=|->\*|\.\.\.|::|->|\+\+|--|<<|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|[-+*/%<>=!&|^~?:;,.(){}\[\]])
''', re.X | re.S)


class Tok:
    __slots__ = ('k', 't', 'line', 'pos')

    def __init__(self, k, t, line, pos):
        self.k, self.t, self.line, self.pos = k, t, line, pos

    def __repr__(self):
        return self.t


DEFINED = {'_OPENMP': '1', '__cplusplus': '201703L'}
CONTROL = {'if', 'for', 'while', 'switch', 'return', 'sizeof', 'catch', 'throw', 'new', 'delete', 'else', 'do', 'case'}
BUILTIN = {'void', 'bool', 'char', 'short', 'int', 'long', 'float', 'double', 'unsigned', 'signed', 'size_t', 'auto',
           'ptrdiff_t'}
QUAL = {'const', 'static', 'inline', 'constexpr', 'typename', 'volatile', 'mutable', 'virtual', 'explicit', 'extern',
        'friend', 'struct', 'class', 'enum', 'thread_local', 'register'}


def lex(text, fname):
    out = []
    pos, line = 0, 1
    n = len(text)
    bol = True
    while pos < n:
        m = TOK.match(text, pos)
        if not m:
            raise AnalysisBroken('%s:%d: cannot lex %r' % (fname, line, text[pos:pos + 20]))
        k = m.lastgroup
        t = m.group()
        if k == 'nl':
            bol = True
        elif k == 'hash' and bol:
            # a preprocessor line, with continuations
            j = pos
            while True:
                e = text.find('\n', j)
                if e < 0:
                    e = n
                if text[e - 1] == '\\':
                    j = e + 1
                    continue
                break
            d = text[pos:e]
            out.append(Tok('pp', d, line, pos))
            line += d.count('\n')
            pos = e
            continue
        elif k in ('ws', 'cont', 'lc', 'bc'):
            pass
        else:
            out.append(Tok(k, t, line, pos))
            bol = False
        line += t.count('\n')
        pos = m.end()
    return out


def preprocess(toks, fname):
    """Resolve conditional compilation; keep #pragma as tokens; record and drop #define and #include."""
    out = []
    stack = []          # (active, any_taken)
    macros = {}
    includes = []
    defined = dict(DEFINED)
    for t in toks:
        if t.k != 'pp':
            if all(a for a, _ in stack):
                out.append(t)
            continue
        d = re.sub(r'//[^\n]*|/\*.*?\*/', '', t.t, flags=re.S)
        m = re.match(r'#\s*(\w+)\s*(.*)', d, re.S)
        if not m:
            continue
        cmd, rest = m.group(1), m.group(2).strip()
        if cmd in ('ifdef', 'ifndef'):
            v = rest.split()[0] in defined
            if cmd == 'ifndef':
                v = not v
            stack.append([v, v])
        elif cmd == 'if':
            v = pp_eval(rest, defined)
            stack.append([v, v])
        elif cmd == 'elif':
            if stack[-1][1]:
                stack[-1][0] = False
            else:
                v = pp_eval(rest, defined)
                stack[-1] = [v, v]
        elif cmd == 'else':
            stack[-1][0] = not stack[-1][1]
            stack[-1][1] = True
        elif cmd == 'endif':
            stack.pop()
        elif all(a for a, _ in stack):
            if cmd == 'define':
                mm = re.match(r'(\w+)(\([^)]*\))?\s*(.*)', rest, re.S)
                name = mm.group(1)
                defined[name] = mm.group(3)
                macros.setdefault(name, []).append((mm.group(2), mm.group(3), t.line))
            elif cmd == 'undef':
                defined.pop(rest, None)
            elif cmd == 'include':
                includes.append(rest)
            elif cmd == 'pragma':
                out.append(Tok('pragma', rest, t.line, t.pos))
    return out, macros, includes


def pp_eval(s, defined):
    s = re.sub(r'defined\s*\(?\s*(\w+)\s*\)?', lambda m: '1' if m.group(1) in defined else '0', s)
    s = re.sub(r'[A-Za-z_]\w*', lambda m: defined.get(m.group()) or '0' if re.match(r'^\d+L?$', defined.get(m.group()) or '0') else '0', s)
    s = s.replace('&&', ' and ').replace('||', ' or ').replace('L', '')
    s = re.sub(r'!(?!=)', ' not ', s)
    try:
        return bool(eval(s, {'__builtins__': {}}))
    except Exception:
        return False


class N:
    """Syntax tree node."""
    __slots__ = ('k', 'a', 'line')

    def __init__(self, k, a, line=0):
        self.k, self.a, self.line = k, a, line

    def __getitem__(self, i):
        return self.a[i]

    def __repr__(self):
        return src(self)


def children(n):
    for x in n.a:
        if isinstance(x, N):
            yield x
        elif isinstance(x, (list, tuple)):
            for y in x:
                if isinstance(y, N):
                    yield y
                elif isinstance(y, (list, tuple)):
                    for z in y:
                        if isinstance(z, N):
                            yield z


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(list(children(x))))


def src(n):
    """Readable, whitespace-normalised text of an expression or statement."""
    if n is None:
        return ''
    k, a = n.k, n.a
    if k == 'name':
        return a[0] + ('<%s>' % ','.join(a[1]) if a[1] is not None else '')
    if k in ('num', 'str'):
        return a[0]
    if k == 'member':
        return '%s%s%s%s' % (src(a[0]), a[2], a[1], '<%s>' % ','.join(a[3]) if a[3] is not None else '')
    if k == 'call':
        return '%s(%s)' % (src(a[0]), ','.join(src(x) for x in a[1]))
    if k == 'index':
        return '%s[%s]' % (src(a[0]), src(a[1]))
    if k == 'un':
        return '%s%s' % (a[0], src(a[1]))
    if k == 'post':
        return '%s%s' % (src(a[1]), a[0])
    if k in ('bin', 'assign'):
        return '(%s%s%s)' % (src(a[1]), a[0], src(a[2]))
    if k == 'cond':
        return '(%s?%s:%s)' % tuple(src(x) for x in a)
    if k == 'cast':
        return '(%s)%s' % (a[0], src(a[1]))
    if k == 'new':
        return 'new %s%s%s' % (a[0], '[%s]' % src(a[2]) if a[2] is not None else '',
                               '(%s)' % ','.join(src(x) for x in a[1]) if a[1] is not None else '')
    if k == 'delete':
        return 'delete%s %s' % ('[]' if a[0] else '', src(a[1]))
    if k == 'init':
        return '{%s}' % ','.join(src(x) for x in a[0])
    if k == 'lambda':
        return '[..](..){..}'
    if k == 'decl':
        return '%s %s;' % (a[0], ','.join(d[0] + ('[%s]' % src(d[2]) if d[2] is not None else '') + (
            '=' + src(d[1]) if isinstance(d[1], N) else ('(%s)' % ','.join(src(x) for x in d[1]) if d[1] is not None else ''))
            for d in a[1]))
    if k == 'expr':
        return src(a[0]) + ';'
    if k == 'if':
        return 'if (%s) %s%s' % (src(a[0]), src(a[1]), ' else ' + src(a[2]) if a[2] is not None else '')
    if k == 'block':
        return '{%s}' % ' '.join(src(x) for x in a[0])
    if k == 'return':
        return 'return %s;' % src(a[0])
    if k == 'for':
        return 'for(%s%s;%s) %s' % (src(a[0]), src(a[1]), src(a[2]), src(a[3]))
    if k == 'rfor':
        return 'for(%s %s:%s) %s' % (a[0], a[1], src(a[2]), src(a[3]))
    if k == 'while':
        return 'while(%s) %s' % (src(a[0]), src(a[1]))
    if k == 'switch':
        return 'switch(%s) %s' % (src(a[0]), src(a[1]))
    if k == 'case':
        return 'case %s:' % src(a[0])
    if k == 'pragma':
        return '#pragma %s\n' % a[0]
    return '<%s>' % k


class P:
    """Parser over a token list."""

    def __init__(self, toks, fname):
        self.toks = toks
        self.i = 0
        self.fname = fname
        self.end = Tok('eof', '<eof>', toks[-1].line if toks else 0, -1)

    # -- helpers
    def p(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else self.end

    def t(self, k=0):
        return self.p(k).t if self.p(k).k != 'str' else '"'

    def fail(self, what):
        x = self.p()
        raise AnalysisBroken('%s:%d: cannot parse (%s) near %r' % (
            self.fname, x.line, what, ' '.join(z.t for z in self.toks[max(0, self.i - 6):self.i + 8])))

    def eat(self, s):
        if self.t() != s:
            self.fail('expected %s' % s)
        self.i += 1

    def acc(self, s):
        if self.t() == s:
            self.i += 1
            return True
        return False

    def skip_balanced(self, op, cl):
        """at `op`: move past the matching `cl`; return tokens between."""
        st = self.i + 1
        d = 0
        while True:
            x = self.p()
            if x.k == 'eof':
                self.fail('unbalanced ' + op)
            if x.k != 'str':
                if x.t == op:
                    d += 1
                elif x.t == cl:
                    d -= 1
                    if d == 0:
                        self.i += 1
                        return self.toks[st:self.i - 1]
            self.i += 1

    # -- template argument lists
    TARG_OK = {'::', ',', '*', '&', '<', '>', '+', '-', '|', '...', '(', ')', '&&', '=='}

    def try_targs(self, expr=True):
        """at '<': return list of argument texts and move past '>', or None and stay."""
        j = self.i + 1
        d, pd = 1, 0
        args, cur = [], []
        while True:
            if j >= len(self.toks):
                return None
            x = self.toks[j]
            if x.k == 'str' or x.t in (';', '{', '}', '=', '?', '||', '+=', '!', '.', '->', '[', ']', '<=', '>=',
                                       '<<', '++', '--', '/'):
                return None
            if x.t == '&&' and expr:
                return None
            if x.t == '(':
                pd += 1
            elif x.t == ')':
                pd -= 1
                if pd < 0:
                    return None
            elif x.t == '<':
                d += 1
            elif x.t == '>':
                d -= 1
                if d == 0:
                    break
            if x.t == ',' and d == 1 and pd == 0:
                args.append(jt(cur))
                cur = []
            else:
                cur.append(x.t)
            j += 1
        if cur:
            args.append(jt(cur))
        nxt = self.toks[j + 1] if j + 1 < len(self.toks) else self.end
        if expr:
            if nxt.t not in ('(', '::', '{', ')', ',', ';', '>') or nxt.k == 'str':
                return None
            if nxt.t in (')', ',', ';', '{') and not all(re.match(r'^[A-Za-z_:\w<>,* ]+$', a) for a in args):
                return None
            if nxt.t in (')', ',', ';') and not any(a.split('<')[0].split(' ')[-1].rstrip('*& ') in BUILTIN or '<' in a
                                                    for a in args):
                # `a < b > c)` style comparisons do not occur; plain names only with a call
                return None
        self.i = j + 1
        return args

    def qname(self, expr=True):
        """qualified name with template arguments; returns (text, targs of last component)."""
        parts = []
        targs = None
        if self.acc('::'):
            parts.append('')
        while True:
            x = self.p()
            if x.t == 'template':
                self.i += 1
                continue
            if x.t == '~':
                self.i += 1
                parts.append('~' + self.p().t)
                self.i += 1
                break
            if x.k != 'id':
                self.fail('name')
            if x.t == 'operator':
                self.i += 1
                op = ''
                if self.t() == '(' and self.t(1) == ')':
                    op = '()'
                    self.i += 2
                elif self.t() == '[':
                    op = '[]'
                    self.i += 2
                elif self.p().k == 'id':
                    # conversion operator
                    op = ' ' + self.type_()
                else:
                    op = self.t()
                    self.i += 1
                    while self.p().k == 'op' and self.t() in ('=', '<', '>') and self.t() != '(':
                        op += self.t()
                        self.i += 1
                parts.append('operator' + op)
                break
            self.i += 1
            nm = x.t
            targs = None
            if self.t() == '<':
                targs = self.try_targs(expr)
                if targs is not None and self.t() == '::':
                    nm = nm + '<%s>' % ','.join(targs)
                    targs = None
            parts.append(nm)
            if self.t() == '::' and (self.p(1).k == 'id' or self.t(1) == '~'):
                self.i += 1
                continue
            break
        return '::'.join(parts), targs

    # -- types
    def type_(self):
        """parse a type; returns its normalised text (raises AnalysisBroken if not a type)."""
        parts = []
        got = False
        while True:
            x = self.p()
            if x.k != 'id' and not (x.t == '::' and not got):
                break
            if x.t in QUAL:
                if x.t in ('const',):
                    parts.append('const')
                self.i += 1
                continue
            if x.t in BUILTIN:
                parts.append(x.t)
                got = True
                self.i += 1
                continue
            if got:
                break
            nm, ta = self.qname(expr=False)
            parts.append(nm + ('<%s>' % ','.join(ta) if ta is not None else ''))
            got = True
        if not got:
            self.fail('type')
        s = ' '.join(parts)
        while True:
            if self.t() in ('*', '&', '&&'):
                s += self.t()
                self.i += 1
            elif self.t() == 'const':
                self.i += 1
                s += ' const'
            else:
                break
        return s

    def try_type(self):
        save = self.i
        try:
            return self.type_()
        except AnalysisBroken:
            self.i = save
            return None

    # -- expressions
    BIN = {'*': 12, '/': 12, '%': 12, '+': 11, '-': 11, '<<': 10, '>>': 10, '<': 9, '>': 9, '<=': 9, '>=': 9,
           '==': 8, '!=': 8, '&': 7, '^': 6, '|': 5, '&&': 4, '||': 3}
    ASG = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}

    def expr(self):
        e = self.assign()
        while self.t() == ',':
            ln = self.p().line
            self.i += 1
            e = N('bin', (',', e, self.assign()), ln)
        return e

    def assign(self):
        ln = self.p().line
        a = self.cond()
        if self.p().k == 'op' and self.t() in self.ASG:
            op = self.t()
            self.i += 1
            b = self.assign() if self.t() != '{' else self.initlist()
            return N('assign', (op, a, b), ln)
        return a

    def cond(self):
        c = self.binary(0)
        if self.t() == '?' and self.p().k == 'op':
            ln = self.p().line
            self.i += 1
            a = self.assign()
            self.eat(':')
            b = self.assign()
            return N('cond', (c, a, b), ln)
        return c

    def binop(self):
        x = self.p()
        if x.k != 'op':
            return None
        if x.t == '>' and self.p(1).t == '>' and self.p(1).pos == x.pos + 1:
            return '>>'
        if x.t in self.BIN:
            return x.t
        return None

    def binary(self, minp):
        a = self.unary()
        while True:
            op = self.binop()
            if op is None or self.BIN[op] <= minp:
                return a
            ln = self.p().line
            self.i += 2 if op == '>>' else 1
            b = self.binary(self.BIN[op])
            a = N('bin', (op, a, b), ln)

    def unary(self):
        x = self.p()
        if x.k == 'op' and x.t in ('-', '+', '!', '~', '*', '&', '++', '--'):
            self.i += 1
            return N('un', (x.t, self.unary()), x.line)
        if x.t == 'new':
            return self.new()
        if x.t == 'delete':
            self.i += 1
            arr = False
            if self.t() == '[':
                self.i += 2
                arr = True
            return N('delete', (arr, self.unary()), x.line)
        if x.t == 'throw':
            self.i += 1
            if self.t() == ';':
                return N('throw', (None,), x.line)
            return N('throw', (self.assign(),), x.line)
        if x.t == 'sizeof':
            self.i += 1
            if self.t() == '(':
                self.skip_balanced('(', ')')
            else:
                self.unary()
            return N('num', ('sizeof',), x.line)
        if x.t == '(' and x.k == 'op':
            c = self.try_cast()
            if c is not None:
                return c
        return self.postfix(self.primary())

    def try_cast(self):
        save = self.i
        line = self.p().line
        self.i += 1
        first = self.p()
        if first.k == 'id':
            ty = self.try_type()
            if ty is not None and self.t() == ')':
                self.i += 1
                nx = self.p()
                sure = ty[-1] in '*&' or ty.split()[0] in BUILTIN or ty.split()[0] == 'const'
                if sure and (nx.k in ('id', 'num', 'str') or nx.t in ('(', '-', '*', '&', '~', '!')):
                    return N('cast', (ty, self.unary()), line)
        self.i = save
        return None

    def new(self):
        line = self.p().line
        self.i += 1
        if self.t() == '(':
            self.skip_balanced('(', ')')
        parts = []
        while self.t() == 'const':
            self.i += 1
        if self.p().t in BUILTIN:
            nm = self.p().t
            self.i += 1
            while self.p().t in BUILTIN:
                nm += ' ' + self.p().t
                self.i += 1
            ta = None
        else:
            nm, ta = self.qname(expr=False)
        ty = nm + ('<%s>' % ','.join(ta) if ta is not None else '')
        while self.t() == '*':
            ty += '*'
            self.i += 1
        args, dim = None, None
        if self.t() == '[':
            self.i += 1
            dim = self.expr()
            self.eat(']')
        if self.t() == '(':
            args = self.args()
        return N('new', (ty, args, dim), line)

    def args(self):
        self.eat('(')
        out = []
        while self.t() != ')':
            out.append(self.initlist() if self.t() == '{' else self.assign())
            self.acc('...')
            if not self.acc(','):
                break
        self.eat(')')
        return out

    def initlist(self):
        ln = self.p().line
        self.eat('{')
        out = []
        while self.t() != '}':
            out.append(self.initlist() if self.t() == '{' else self.assign())
            if not self.acc(','):
                break
        self.eat('}')
        return N('init', (out,), ln)

    CASTS = {'static_cast', 'reinterpret_cast', 'const_cast', 'dynamic_cast'}

    def primary(self):
        x = self.p()
        if x.k == 'num':
            self.i += 1
            return N('num', (x.t,), x.line)
        if x.k in ('str', 'chr'):
            s = ''
            while self.p().k in ('str', 'chr'):
                s += self.p().t
                self.i += 1
            return N('str', (s,), x.line)
        if x.t == '(':
            self.i += 1
            e = self.expr()
            self.eat(')')
            return e
        if x.t == '[':
            return self.lambda_()
        if x.t == '{':
            return self.initlist()
        if x.k == 'id' or x.t == '::':
            if x.t in self.CASTS:
                self.i += 1
                j = self.i
                ta = self.cast_targs()
                self.eat('(')
                e = self.expr()
                self.eat(')')
                return N('cast', (ta, e), x.line)
            if x.t in BUILTIN:
                nm = x.t
                self.i += 1
                while self.p().t in BUILTIN:
                    nm += ' ' + self.p().t
                    self.i += 1
                return N('name', (nm, None), x.line)
            if x.t == 'typename':
                self.i += 1
            nm, ta = self.qname()
            return N('name', (nm, ta), x.line)
        self.fail('expression')

    def cast_targs(self):
        d = 0
        parts = []
        while True:
            x = self.p()
            if x.t == '<':
                d += 1
            elif x.t == '>':
                d -= 1
                if d == 0:
                    self.i += 1
                    return jt(parts[1:])
            elif x.k == 'eof':
                self.fail('cast')
            parts.append(x.t)
            self.i += 1

    def lambda_(self):
        ln = self.p().line
        cap = self.skip_balanced('[', ']')
        params = []
        if self.t() == '(':
            params = self.params()
        while self.t() not in ('{',):
            self.i += 1
            if self.p().k == 'eof':
                self.fail('lambda')
        body = self.block()
        return N('lambda', (jt([c.t for c in cap]), params, body), ln)

    def postfix(self, e):
        while True:
            x = self.p()
            if x.k != 'op':
                return e
            if x.t == '(':
                e = N('call', (e, self.args()), x.line)
            elif x.t == '[':
                self.i += 1
                j = self.expr()
                self.eat(']')
                e = N('index', (e, j), x.line)
            elif x.t in ('.', '->'):
                self.i += 1
                if self.t() == 'template':
                    self.i += 1
                if self.t() == '~':
                    self.i += 1
                    nm, ta = '~' + self.t(), None
                    self.i += 1
                else:
                    nm, ta = self.qname()
                e = N('member', (e, nm, x.t, ta), x.line)
            elif x.t in ('++', '--'):
                self.i += 1
                e = N('post', (x.t, e), x.line)
            elif x.t == '{' and e.k == 'name' and (e[1] is not None or '::' in e[0]):
                return e
            else:
                return e

    # -- statements
    def block(self):
        ln = self.p().line
        self.eat('{')
        out = []
        while self.t() != '}':
            if self.p().k == 'eof':
                self.fail('block')
            s = self.stmt()
            if s is not None:
                out.append(s)
        self.eat('}')
        return N('block', (out,), ln)

    def is_decl(self):
        """is there a declaration at the cursor?"""
        x = self.p()
        if x.k != 'id' and x.t != '::':
            return False
        if x.t in ('const', 'static', 'constexpr', 'typename', 'auto', 'struct'):
            return True
        save = self.i
        try:
            if x.t in CONTROL:
                return False
            ty = self.try_type()
            if ty is None:
                return False
            if self.p().k != 'id' or self.p().t in ('operator',):
                # function pointer: double (*f)(...)
                return False
            if self.p(1).k == 'op' and self.t(1) in ('=', ';', ',', '(', '[', '{', ':'):
                return True
            return False
        finally:
            self.i = save

    def decl(self):
        ln = self.p().line
        static = False
        j = self.i
        while self.toks[j].t in QUAL:
            if self.toks[j].t == 'static':
                static = True
            j += 1
        ty = self.type_()
        base = ty.rstrip('*& ')
        ds = []
        while True:
            x = self.p()
            if x.k != 'id':
                self.fail('declarator')
            self.i += 1
            dim, init = None, None
            while self.t() == '[':
                self.i += 1
                dim = self.expr() if self.t() != ']' else None
                self.eat(']')
            if self.t() == '=':
                self.i += 1
                init = self.initlist() if self.t() == '{' else self.assign()
            elif self.t() == '(':
                init = self.args()
            elif self.t() == '{':
                init = self.initlist()
            ds.append((x.t, init, dim))
            if self.acc(','):
                while self.t() in ('*', '&'):
                    self.i += 1
                continue
            break
        return N('decl', (('static ' if static else '') + ty, ds), ln)

    def stmt(self):
        x = self.p()
        ln = x.line
        if x.k == 'pragma':
            self.i += 1
            return N('pragma', (x.t,), ln)
        t = self.t()
        if t == '{':
            return self.block()
        if t == ';':
            self.i += 1
            return None
        if t == 'if':
            self.i += 1
            self.acc('constexpr')
            self.eat('(')
            c = self.expr()
            self.eat(')')
            a = self.stmt1()
            b = None
            if self.acc('else'):
                b = self.stmt1()
            return N('if', (c, a, b), ln)
        if t == 'for':
            self.i += 1
            self.eat('(')
            # range for
            save = self.i
            ty = self.try_type()
            if ty is not None and self.p().k == 'id' and self.t(1) == ':':
                nm = self.t()
                self.i += 2
                e = self.expr()
                self.eat(')')
                return N('rfor', (ty, nm, e, self.stmt1()), ln)
            self.i = save
            init = None
            if self.t() != ';':
                init = self.decl() if self.is_decl() else N('expr', (self.expr(),), ln)
            self.eat(';')
            c = self.expr() if self.t() != ';' else None
            self.eat(';')
            s = self.expr() if self.t() != ')' else None
            self.eat(')')
            return N('for', (init, c, s, self.stmt1()), ln)
        if t == 'while':
            self.i += 1
            self.eat('(')
            c = self.expr()
            self.eat(')')
            return N('while', (c, self.stmt1()), ln)
        if t == 'do':
            self.i += 1
            b = self.stmt1()
            self.eat('while')
            self.eat('(')
            c = self.expr()
            self.eat(')')
            self.eat(';')
            return N('do', (b, c), ln)
        if t == 'switch':
            self.i += 1
            self.eat('(')
            c = self.expr()
            self.eat(')')
            return N('switch', (c, self.block()), ln)
        if t == 'case':
            self.i += 1
            c = self.cond_nocolon()
            self.eat(':')
            return N('case', (c,), ln)
        if t == 'default':
            self.i += 1
            self.eat(':')
            return N('default', (), ln)
        if t == 'return':
            self.i += 1
            e = None
            if self.t() != ';':
                e = self.initlist() if self.t() == '{' else self.expr()
            self.eat(';')
            return N('return', (e,), ln)
        if t in ('break', 'continue'):
            self.i += 1
            self.eat(';')
            return N(t, (), ln)
        if t == 'try':
            self.i += 1
            b = self.block()
            hs = []
            while self.acc('catch'):
                d = self.skip_balanced('(', ')')
                hs.append((jt([z.t for z in d]), self.block()))
            return N('try', (b, hs), ln)
        if t in ('using', 'typedef', 'friend'):
            while self.t() != ';':
                self.i += 1
            self.i += 1
            return None
        if t in ('enum', 'struct', 'class'):
            save = self.i
            while self.t() not in (';', '{', '='):
                self.i += 1
            if self.t() == '{':
                self.skip_balanced('{', '}')
                while self.t() != ';':
                    self.i += 1
                self.i += 1
                return None
            self.i = save
        if self.is_decl():
            d = self.decl()
            self.eat(';')
            return d
        e = self.expr()
        if self.t() != ';' and e.k == 'call':
            # a macro invocation that carries its own semicolon
            return N('expr', (e,), ln)
        self.eat(';')
        return N('expr', (e,), ln)

    def stmt1(self):
        while True:
            s = self.stmt()
            if s is not None and s.k == 'pragma':
                inner = self.stmt1()
                return N('block', ([s, inner],), s.line)
            return s if s is not None else N('block', ([],), self.p().line)

    def cond_nocolon(self):
        # case labels: names, numbers, simple expressions
        return self.binary(0)

    # -- function parameters
    def params(self):
        self.eat('(')
        out = []
        while self.t() != ')':
            if self.acc('...'):
                continue
            ty = self.type_()
            if self.acc('...'):
                ty += '...'
            nm = ''
            if self.t() == '(':         # function pointer
                self.skip_balanced('(', ')')
                if self.t() == '(':
                    self.skip_balanced('(', ')')
            elif self.p().k == 'id':
                nm = self.t()
                self.i += 1
            dim = None
            while self.t() == '[':
                self.skip_balanced('[', ']')
                ty += '[]'
            dflt = None
            if self.acc('='):
                dflt = self.assign()
            out.append(Param(ty, nm, dflt))
            if not self.acc(','):
                break
        self.eat(')')
        return out


class Param:
    def __init__(self, type, name, default):
        self.type, self.name, self.default = type, name, default

    def __repr__(self):
        return '%s %s' % (self.type, self.name)


def jt(parts):
    s = ''
    for p in parts:
        if s and re.match(r'\w', p) and re.match(r'\w', s[-1]):
            s += ' '
        s += p
    return s


class Func:
    def __init__(self, name, cls, targs, tparams, ctargs, params, ret, toks, init_toks, fname, line, const, inline_cls):
        self.name = name            # unqualified name
        self.cls = cls              # class name without template args, or ''
        self.targs = targs          # explicit specialisation args of the function
        self.ctargs = ctargs        # template args of the class qualifier
        self.tparams = tparams      # list of (kind, name)
        self.params = params
        self.ret = ret
        self.toks = toks
        self.init_toks_ = init_toks
        self.fname = fname
        self.line = line
        self.const = const
        self.static = self.virtual = False
        self._body = None
        self._init = None

    @property
    def qual(self):
        c = self.cls
        if c and self.ctargs:
            c += '<%s>' % ','.join(self.ctargs)
        return (c + '::' if c else '') + self.name + ('<%s>' % ','.join(self.targs) if self.targs else '')

    @property
    def where(self):
        return '%s:%d (%s)' % (self.fname, self.line, self.qual)

    @property
    def body(self):
        if self._body is None:
            p = P(self.toks, self.fname)
            self._body = p.block()
        return self._body

    @property
    def inits(self):
        """constructor initialisers: list of (name, [args])."""
        if self._init is None:
            out = []
            if self.init_toks_:
                p = P(self.init_toks_, self.fname)
                while p.p().k != 'eof':
                    nm, ta = p.qname(expr=False)
                    if p.t() == '(':
                        out.append((nm, p.args()))
                    else:
                        out.append((nm, list(p.initlist().a[0])))
                    if not p.acc(','):
                        break
            self._init = out
        return self._init

    def body_tokens(self):
        return [t.t for t in self.toks]

    def init_tokens(self):
        return [t.t for t in self.init_toks_]

    def __repr__(self):
        return self.qual


class Class:
    def __init__(self, name, targs, tparams, bases, fname, line):
        self.mutable = set()
        self.name, self.targs, self.tparams, self.bases = name, targs, tparams, bases
        self.fname, self.line = fname, line
        self.fields = []        # (type, name, array-dim-or-None)
        self.consts = {}        # unscoped enumerators: name -> value
        self.cexpr = {}         # enumerator: name -> value expression (syntax)
        self.decls = []         # method names declared (name, params, is_virtual, is_pure)
        self.methods = []       # Func defined inside


class Sources:
    def __init__(self):
        self.files = {}
        self.functions = []
        self.classes = []
        self.enums = {}
        self.macros = {}
        self.macro_uses = []
        self.protos = []
        self.globals = []           # (type, name, file, line)

    def fns(self, name, cls=None):
        return [f for f in self.functions if f.name == name and (cls is None or f.cls == cls)]

    def fn(self, name, cls=None):
        r = self.fns(name, cls)
        if len(r) != 1:
            raise AnalysisBroken('%d C++ functions named %s%s' % (len(r), cls + '::' if cls else '', name))
        return r[0]

    def cls(self, name):
        r = [c for c in self.classes if c.name == name]
        if not r:
            raise AnalysisBroken('no C++ class %s' % name)
        return r


class Top:
    """Top level of a file: namespaces, templates, classes, functions, enums."""

    def __init__(self, S, toks, fname):
        self.S, self.fname = S, fname
        self.pp = P(toks, fname)

    def run(self):
        while self.pp.p().k != 'eof':
            self.item(None)

    def item(self, cls, tparams=None):
        p = self.pp
        x = p.p()
        if x.k == 'pragma':
            p.i += 1
            return
        t = p.t()
        if t == ';':
            p.i += 1
            return
        if t == 'namespace':
            while p.t() not in ('{', ';'):
                p.i += 1
            if p.t() == ';':
                p.i += 1
                return
            p.i += 1
            while p.t() != '}':
                self.item(cls)
            p.i += 1
            return
        if t == 'extern' and p.p(1).k == 'str':
            p.i += 2
            if p.t() == '{':
                p.i += 1
                while p.t() != '}':
                    self.item(cls)
                p.i += 1
            return
        if t == 'template':
            p.i += 1
            if p.t() != '<':
                # explicit instantiation
                while p.t() != ';':
                    p.i += 1
                p.i += 1
                return
            tp = self.template_params()
            self.item(cls, (tparams or []) + tp)
            return
        if t in ('using', 'typedef', 'friend'):
            while p.t() != ';':
                if p.t() == '{':
                    p.skip_balanced('{', '}')
                    return
                p.i += 1
            p.i += 1
            return
        if t == 'static_assert':
            while p.t() != ';':
                p.i += 1
            p.i += 1
            return
        if t == 'enum':
            self.enum(cls)
            return
        if t in ('union', 'struct') and p.t(1) == '{':
            # anonymous: its members belong to the enclosing class
            p.i += 2
            while p.t() != '}':
                self.item(cls)
            p.i += 1
            while p.t() != ';':
                p.i += 1
            p.i += 1
            return
        if t in ('class', 'struct', 'union') and self.is_class():
            self.klass(tparams, cls)
            return
        if cls is not None and t in ('public', 'private', 'protected') and p.t(1) == ':':
            p.i += 2
            return
        # macro use at top level: NAME(args) [;]
        if x.k == 'id' and p.t(1) == '(' and (cls is None) and self.is_macro_use():
            nm = x.t
            p.i += 1
            a = p.skip_balanced('(', ')')
            self.S.macro_uses.append((nm, jt([z.t for z in a]), self.fname, x.line))
            if p.t() == '{':
                st = p.i
                p.skip_balanced('{', '}')
                self.S.functions.append(Func(nm, '', [], [], [], [], '', p.toks[st:p.i], [], self.fname, x.line,
                                             False, None))
            p.acc(';')
            return
        self.declaration(cls, tparams)

    def is_macro_use(self):
        p = self.pp
        save = p.i
        p.i += 1
        p.skip_balanced('(', ')')
        nx = p.t()
        nk = p.p().k
        p.i = save
        return nx not in ('{', ':', 'const') or re.match(r'[A-Z0-9_]+$', p.t()) is not None and nx == '{'

    def is_class(self):
        p = self.pp
        j = p.i
        while j < len(p.toks) and p.toks[j].t not in ('{', ';', '(', '='):
            j += 1
        return j < len(p.toks) and (p.toks[j].t == '{' or p.toks[j].t == ';')

    def template_params(self):
        p = self.pp
        p.eat('<')
        out = []
        cur = []
        d, pd = 1, 0
        while True:
            x = p.p()
            p.i += 1
            if x.t == '<':
                d += 1
            elif x.t == '>':
                d -= 1
                if d == 0:
                    break
            elif x.t == '(':
                pd += 1
            elif x.t == ')':
                pd -= 1
            if x.t == ',' and d == 1 and pd == 0:
                out.append(cur)
                cur = []
            else:
                cur.append(x.t)
        if cur:
            out.append(cur)
        res = []
        for c in out:
            c2 = c[:c.index('=')] if '=' in c else c
            nm = c2[-1] if len(c2) > 1 and re.match(r'\w', c2[-1]) else ''
            res.append((jt(c2[:-1] if nm else c2), nm))
        return res

    def enum(self, cls):
        p = self.pp
        p.i += 1
        p.acc('class')
        nm = ''
        if p.p().k == 'id':
            nm = p.t()
            p.i += 1
        if p.t() == ':':
            while p.t() not in ('{', ';'):
                p.i += 1
        if p.t() == '{':
            p.i += 1
            vals = []
            nxt = 0
            while p.t() != '}':
                v = p.t()
                p.i += 1
                if p.acc('='):
                    e = p.cond()
                    if cls is not None and not nm:
                        cls.cexpr[v] = e
                    try:
                        tx = src(e)
                        nxt = {'true': 1, 'false': 0}[tx] if tx in ('true', 'false') else int(tx, 0)
                    except ValueError:
                        pass
                vals.append((v, nxt))
                nxt += 1
                p.acc(',')
            p.i += 1
            if nm:
                self.S.enums[nm] = vals
            elif cls is not None:
                cls.consts.update(vals)
        while p.t() != ';':
            p.i += 1
        p.i += 1

    def klass(self, tparams, outer):
        p = self.pp
        line = p.p().line
        p.i += 1
        nm, ta = p.qname(expr=False)
        p.acc('final')
        if p.t() == ';':
            p.i += 1
            return
        bases = []
        if p.acc(':'):
            while p.t() != '{':
                while p.t() in ('public', 'private', 'protected', 'virtual'):
                    p.i += 1
                b, bta = p.qname(expr=False)
                bases.append(b + ('<%s>' % ','.join(bta) if bta is not None else ''))
                p.acc(',')
        c = Class(nm, ta or [], tparams or [], bases, self.fname, line)
        self.S.classes.append(c)
        p.eat('{')
        while p.t() != '}':
            self.item(c)
        p.i += 1
        while p.t() != ';':
            p.i += 1
        p.i += 1

    def declaration(self, cls, tparams):
        """function definition/prototype, field or variable."""
        p = self.pp
        line = p.p().line
        virt = stat = mut = False
        j = p.i
        while p.toks[j].t in QUAL:
            if p.toks[j].t == 'virtual':
                virt = True
            if p.toks[j].t == 'static':
                stat = True
            if p.toks[j].t == 'mutable':
                mut = True
            j += 1
        start = p.i
        # constructor / destructor / conversion operator inside class or qualified outside
        ret = ''
        name = None
        while p.t() in ('explicit', 'inline', 'virtual', 'static', 'constexpr'):
            p.i += 1
        save = p.i
        ctor = False
        if cls is not None and p.p().k == 'id' and p.t() == cls.name and p.t(1) == '(' or p.t() == '~' or \
                p.t() == 'operator':
            ctor = True
        elif p.p().k == 'id':
            # X<..>::X( or X::~X(
            try:
                nm, ta = p.qname(expr=False)
                if '::' in nm and p.t() == '(':
                    last = nm.split('::')
                    base = re.sub(r'<.*', '', split_q(nm)[-2])
                    if split_q(nm)[-1].lstrip('~') == base or split_q(nm)[-1].startswith('operator'):
                        ctor = True
            except AnalysisBroken:
                pass
            p.i = save
        if not ctor:
            ret = p.type_()
            if p.t() == '(' and p.t(1) == '*':
                # function pointer variable: skip
                while p.t() != ';':
                    p.i += 1
                p.i += 1
                return
        # declarators
        if ctor and p.t() in ('~', 'operator') or p.p().k == 'id':
            nm, ta = p.qname(expr=False)
        else:
            p.fail('declaration')
        if p.t() == '(':
            save2 = p.i
            try:
                params = p.params()
            except AnalysisBroken:
                p.i = save2
                # variable with constructor arguments
                p.skip_balanced('(', ')')
                while p.t() != ';':
                    p.i += 1
                p.i += 1
                return
            const = False
            pure = False
            while p.t() in ('const', 'override', 'noexcept', 'final', 'throw'):
                if p.t() == 'const':
                    const = True
                p.i += 1
                if p.t() == '(':
                    p.skip_balanced('(', ')')
            q = split_q(nm)
            cname, ctargs = '', []
            if len(q) > 1:
                m = re.match(r'([\w]+)(?:<(.*)>)?$', q[-2])
                if m:
                    cname = m.group(1)
                    ctargs = split_targs(m.group(2) or '')
            elif cls is not None:
                cname = cls.name
                ctargs = list(cls.targs)
            if p.t() == ';' or p.t() == '=':
                if p.t() == '=':
                    pure = True
                while p.t() != ';':
                    p.i += 1
                p.i += 1
                if cls is not None:
                    cls.decls.append((q[-1], params, virt, pure))
                else:
                    self.S.protos.append((q[-1], params, ret, self.fname, line))
                return
            it = []
            if p.t() == ':':
                p.i += 1
                st = p.i
                # initialiser list up to the body brace
                while True:
                    p.qname(expr=False)
                    if p.t() == '(':
                        p.skip_balanced('(', ')')
                    else:
                        p.skip_balanced('{', '}')
                    if not p.acc(','):
                        break
                it = p.toks[st:p.i]
            if p.t() != '{':
                p.fail('function body')
            st = p.i
            p.skip_balanced('{', '}')
            f = Func(q[-1], cname, ta or [], (cls.tparams if cls is not None else []) + (tparams or []), ctargs, params,
                     ret, p.toks[st:p.i], it, self.fname, line, const, cls)
            f.static, f.virtual = stat, virt
            self.S.functions.append(f)
            if cls is not None:
                cls.methods.append(f)
                cls.decls.append((q[-1], params, virt, False))
            p.acc(';')
            return
        # variables / fields
        while True:
            dim = None
            while p.t() == '[':
                dim = jt([z.t for z in p.skip_balanced('[', ']')])
            if p.t() == ':':        # bitfield
                p.i += 2
            init = None
            if p.acc('='):
                init = p.initlist() if p.t() == '{' else p.assign()
            elif p.t() == '{':
                init = p.initlist()
            if cls is not None:
                cls.fields.append((('static ' if stat else '') + ret, nm, dim))
                if mut:
                    cls.mutable.add(nm)
            else:
                self.S.globals.append((ret, nm, self.fname, line))
            if p.acc(','):
                while p.t() in ('*', '&'):
                    p.i += 1
                nm, ta = p.qname(expr=False)
                continue
            break
        p.eat(';')


def split_q(nm):
    """split a qualified name at top-level ::"""
    out, d, cur = [], 0, ''
    i = 0
    while i < len(nm):
        if nm[i] == '<' and not cur.startswith('operator'):
            d += 1
        elif nm[i] == '>' and not cur.startswith('operator'):
            d -= 1
        if nm.startswith('::', i) and d == 0:
            out.append(cur)
            cur = ''
            i += 2
            continue
        cur += nm[i]
        i += 1
    out.append(cur)
    return out


def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


_S = None


def load_sources():
    global _S
    if _S is not None:
        return _S
    S = Sources()
    for d, ext in (('include', '.h'), ('src', '.cpp')):
        dd = os.path.join(REPO, d)
        if not os.path.isdir(dd):
            raise AnalysisBroken('no directory %s' % dd)
        for fn in sorted(os.listdir(dd)):
            if not fn.endswith(ext):
                continue
            rel = d + '/' + fn
            text = open(os.path.join(dd, fn), encoding='utf-8').read()
            toks, macros, inc = preprocess(lex(text, rel), rel)
            S.files[rel] = text
            for k, v in macros.items():
                S.macros.setdefault(k, []).extend((rel,) + x for x in v)
            Top(S, toks, rel).run()
    _S = S
    return S
