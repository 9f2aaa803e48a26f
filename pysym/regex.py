"""Backtracking regular-expression matcher over symbolic text, driven by the
standard library's own parser (re._parser).  Every character test is a branch
decided by the engine, so match semantics (greedy order, groups) follow `re`."""
import re
import re._parser as sp
import re._constants as sc
import z3
from . import terms as T
from . import strs as S
from .terms import SymInt, sand, sor, snot
from .strs import SymBytes, SymStr, SymByteArray

_parsed = {}


def parse(pattern, flags):
    key = (pattern, flags)
    r = _parsed.get(key)
    if r is None:
        r = _parsed[key] = sp.parse(pattern, flags)
    return r


def cat_ranges(cat, is_bytes, flags):
    name = str(cat)
    neg = 'NOT' in name
    asc = is_bytes or (flags & re.ASCII)
    if 'DIGIT' in name:
        rs = [(48, 57)] if asc else S.pred_ranges(lambda c: c.isdecimal(), 're_digit')
    elif 'SPACE' in name:
        rs = [(9, 13), (32, 32)] if asc else S.pred_ranges(lambda c: c.isspace(), 're_space')
    elif 'WORD' in name:
        rs = [(48, 57), (65, 90), (95, 95), (97, 122)] if asc else \
            S.pred_ranges(lambda c: c.isalnum() or c == '_', 're_word')
    else:
        raise T.Unsupported('regex category ' + name)
    return rs, neg


def test_in(x, items, ctx):
    neg = False
    cs = []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            cs.append(lit(x, av, ctx))
        elif op is sc.RANGE:
            cs.append(rngtest(x, av[0], av[1], ctx))
        elif op is sc.CATEGORY:
            rs, n = cat_ranges(av, ctx.is_bytes, ctx.flags)
            c = S.in_ranges(x, rs)
            cs.append(snot(c) if n else c)
        else:
            raise T.Unsupported('regex set item %s' % op)
    r = sor(*cs)
    return snot(r) if neg else r


def rngtest(x, lo, hi, ctx):
    r = sand(x >= lo, x <= hi)
    if ctx.flags & re.IGNORECASE:
        outs = [r]
        for c in range(lo, min(hi, 127) + 1):
            ch = chr(c)
            if ch.swapcase() != ch and len(ch.swapcase()) == 1:
                outs.append(x == ord(ch.swapcase()))
        r = sor(*outs)
    return r


def lit(x, c, ctx):
    if ctx.flags & re.IGNORECASE:
        ch = chr(c)
        alts = set([c] + [ord(y) for y in (ch.lower(), ch.upper()) if len(y) == 1])
        return S.in_set(x, sorted(alts))
    return x == c


class Ctx(object):
    def __init__(self, items, is_bytes, flags, endpos=None):
        self.s = items
        self.n = len(items)
        self.is_bytes = is_bytes
        self.flags = flags


def m_seq(nodes, k, i, g, ctx, cont):
    """match nodes[k:] at i, then cont(i, g); generator-free backtracking: returns result or None"""
    if k == len(nodes):
        return cont(i, g)
    op, av = nodes[k]
    T.engine().tick()
    if op is sc.LITERAL:
        if i < ctx.n and bool(lit(ctx.s[i], av, ctx)):
            return m_seq(nodes, k + 1, i + 1, g, ctx, cont)
        return None
    if op is sc.NOT_LITERAL:
        if i < ctx.n and bool(snot(lit(ctx.s[i], av, ctx))):
            return m_seq(nodes, k + 1, i + 1, g, ctx, cont)
        return None
    if op is sc.ANY:
        if i < ctx.n and ((ctx.flags & re.DOTALL) or bool(ctx.s[i] != 10)):
            return m_seq(nodes, k + 1, i + 1, g, ctx, cont)
        return None
    if op is sc.IN:
        if i < ctx.n and bool(test_in(ctx.s[i], av, ctx)):
            return m_seq(nodes, k + 1, i + 1, g, ctx, cont)
        return None
    if op is sc.BRANCH:
        for alt in av[1]:
            r = m_seq(list(alt), 0, i, g, ctx, lambda j, g2: m_seq(nodes, k + 1, j, g2, ctx, cont))
            if r is not None:
                return r
        return None
    if op is sc.SUBPATTERN:
        gid, addf, delf, p = av
        if addf or delf:
            raise T.Unsupported('inline regex flags')

        def after(j, g2, start=i):
            if gid is not None:
                g2 = dict(g2)
                g2[gid] = (start, j)
            return m_seq(nodes, k + 1, j, g2, ctx, cont)
        return m_seq(list(p), 0, i, g, ctx, after)
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or str(op) == 'POSSESSIVE_REPEAT':
        lo, hi, p = av
        p = list(p)
        greedy = op is sc.MAX_REPEAT
        single = len(p) == 1 and p[0][0] in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN)
        if str(op) == 'POSSESSIVE_REPEAT':
            raise T.Unsupported('possessive')
        if single:
            # count how far the run extends, then give back
            def one(j):
                o, a = p[0]
                x = ctx.s[j]
                if o is sc.LITERAL:
                    return bool(lit(x, a, ctx))
                if o is sc.NOT_LITERAL:
                    return bool(snot(lit(x, a, ctx)))
                if o is sc.ANY:
                    return bool(ctx.flags & re.DOTALL) or bool(x != 10)
                return bool(test_in(x, a, ctx))
            j = i
            c = 0
            mx = ctx.n if hi is sc.MAXREPEAT else int(hi)
            if greedy:
                while c < mx and j < ctx.n and one(j):
                    j += 1
                    c += 1
                while c >= lo:
                    r = m_seq(nodes, k + 1, i + c, g, ctx, cont)
                    if r is not None:
                        return r
                    c -= 1
                return None
            while c < lo:
                if j >= ctx.n or not one(j):
                    return None
                j += 1
                c += 1
            while True:
                r = m_seq(nodes, k + 1, j, g, ctx, cont)
                if r is not None:
                    return r
                if c >= mx or j >= ctx.n or not one(j):
                    return None
                j += 1
                c += 1

        def rep(count, j, g2):
            more = hi is sc.MAXREPEAT or count < int(hi)

            def again():
                if not more:
                    return None

                def nxt(j2, g3):
                    if j2 == j and count >= lo:
                        return None
                    return rep(count + 1, j2, g3)
                return m_seq(p, 0, j, g2, ctx, nxt)
            if count < lo:
                return again()
            if greedy:
                r = again()
                if r is not None:
                    return r
                return m_seq(nodes, k + 1, j, g2, ctx, cont)
            r = m_seq(nodes, k + 1, j, g2, ctx, cont)
            if r is not None:
                return r
            return again()
        return rep(0, i, g)
    if op is sc.AT:
        ok = at(av, i, ctx)
        return m_seq(nodes, k + 1, i, g, ctx, cont) if ok else None
    if op in (sc.ASSERT, sc.ASSERT_NOT):
        d, p = av
        res = None
        if d >= 0:
            res = m_seq(list(p), 0, i, g, ctx, lambda j, g2: (j, g2))
        else:
            lo, hi = p.getwidth()
            for w in range(int(lo), min(int(hi), i) + 1):
                res = m_seq(list(p), 0, i - w, g, ctx, lambda j, g2: (j, g2) if j == i else None)
                if res is not None:
                    break
        if op is sc.ASSERT:
            if res is None:
                return None
            return m_seq(nodes, k + 1, i, res[1], ctx, cont)
        return m_seq(nodes, k + 1, i, g, ctx, cont) if res is None else None
    if op is sc.GROUPREF:
        if av not in g:
            return None
        a, b = g[av]
        if i + (b - a) <= ctx.n and bool(S.eq_items(ctx.s[a:b], ctx.s[i:i + b - a])):
            return m_seq(nodes, k + 1, i + b - a, g, ctx, cont)
        return None
    raise T.Unsupported('regex op %s' % op)


def is_word(x, ctx):
    rs, _ = cat_ranges('CATEGORY_WORD', ctx.is_bytes, ctx.flags)
    return bool(S.in_ranges(x, rs))


def at(av, i, ctx):
    n = ctx.n
    if av is sc.AT_BEGINNING:
        if i == 0:
            return True
        return bool(ctx.flags & re.MULTILINE) and bool(ctx.s[i - 1] == 10)
    if av is sc.AT_BEGINNING_STRING:
        return i == 0
    if av is sc.AT_END:
        if i == n:
            return True
        if ctx.flags & re.MULTILINE:
            return bool(ctx.s[i] == 10)
        return i == n - 1 and bool(ctx.s[i] == 10)
    if av is sc.AT_END_STRING:
        return i == n
    if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
        a = i > 0 and is_word(ctx.s[i - 1], ctx)
        b = i < n and is_word(ctx.s[i], ctx)
        return (a != b) if av is sc.AT_BOUNDARY else (a == b)
    raise T.Unsupported('regex at %s' % av)


class SymMatch(object):
    def __init__(self, subject, items, start, end, groups, tree):
        self.string = subject
        self._its = items
        self._g = dict(groups)
        self._g[0] = (start, end)
        self._tree = tree
        self.pos = 0

    def _mk(self, a, b):
        if isinstance(self.string, str):
            return SymStr.make(self._its[a:b])
        return SymBytes.make(self._its[a:b])

    def _id(self, g):
        if isinstance(g, str):
            return self._tree.state.groupdict[g]
        return g

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            g = self._id(g)
            if g > self._tree.state.groups - 1:
                raise IndexError('no such group')
            out.append(self._mk(*self._g[g]) if g in self._g else None)
        return out[0] if len(out) == 1 else tuple(out)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return tuple(self._mk(*self._g[g]) if g in self._g else default
                     for g in range(1, self._tree.state.groups))

    def groupdict(self, default=None):
        return dict((n, self._mk(*self._g[i]) if i in self._g else default)
                    for n, i in self._tree.state.groupdict.items())

    def start(self, g=0):
        self._positions()
        return self._g.get(self._id(g), (-1, -1))[0]

    def end(self, g=0):
        self._positions()
        return self._g.get(self._id(g), (-1, -1))[1]

    def span(self, g=0):
        self._positions()
        return self._g.get(self._id(g), (-1, -1))

    def _positions(self):
        if any(type(x) is S.Dec for x in self._its):
            raise T.Unsupported('positions of a match over decimal runs')

    @property
    def lastindex(self):
        ks = [k for k in self._g if k]
        return max(ks) if ks else None

    def expand(self, t):
        raise T.Unsupported('expand')

    def __bool__(self):
        return True


def items_of(s):
    if type(s) is SymStr:
        return s._items(), False
    if isinstance(s, str):
        return [ord(c) for c in s], False
    b = S._bytes_items(s)
    if b is None:
        raise TypeError("expected string or bytes-like object, got '%s'" % type(s).__name__)
    return b, True


def _digits(op, av):
    """0: matches no ASCII digit, 1: all of them, None: some, or not a single-character test"""
    if op is sc.LITERAL:
        return None if 48 <= av <= 57 else 0
    if op is sc.NOT_LITERAL:
        return None if 48 <= av <= 57 else 1
    if op is sc.ANY:
        return 1
    if op is not sc.IN:
        return None
    got = set()
    neg = False
    for o, a in av:
        if o is sc.NEGATE:
            neg = True
        elif o is sc.LITERAL:
            if 48 <= a <= 57:
                got.add(a)
        elif o is sc.RANGE:
            got.update(c for c in range(48, 58) if a[0] <= c <= a[1])
        elif o is sc.CATEGORY:
            n = str(a)
            if ('DIGIT' in n or 'WORD' in n) != ('NOT' in n):
                got.update(range(48, 58))
        else:
            return None
    if len(got) not in (0, 10):
        return None
    return (1 if got else 0) ^ neg


class _NotUniform(Exception):
    pass


def _shape(nodes):
    """(nullable, digit may be first, digit may be last) of a node sequence that treats every run of digits
    like a single digit; raises _NotUniform"""
    parts = []
    for op, av in nodes:
        if op is sc.AT:
            if 'BOUNDARY' in str(av):
                raise _NotUniform()
            continue
        if op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise _NotUniform()
            parts.append(_shape(list(av[3])))
        elif op is sc.BRANCH:
            alts = [_shape(list(a)) for a in av[1]]
            parts.append(tuple(any(a[i] for a in alts) for i in range(3)))
        elif op is sc.MAX_REPEAT:
            lo, hi, body = av
            body = list(body)
            d = _digits(*body[0]) if len(body) == 1 else None
            if d == 1:
                if lo > 1 or hi is not sc.MAXREPEAT:
                    raise _NotUniform()
                parts.append((lo == 0, True, True))
            elif d == 0:
                parts.append((lo == 0, False, False))
            else:
                n, f, l = _shape(body)
                if f and l and hi != 1:
                    raise _NotUniform()
                parts.append((n or lo == 0, f, l))
        else:
            if _digits(op, av) != 0:
                raise _NotUniform()
            parts.append((False, False, False))
    for i in range(len(parts)):
        if parts[i][2]:
            for j in range(i + 1, len(parts)):
                if parts[j][1]:
                    raise _NotUniform()
                if not parts[j][0]:
                    break
    first = last = False
    for q in parts:
        first = first or q[1]
        if not q[0]:
            break
    for q in reversed(parts):
        last = last or q[2]
        if not q[0]:
            break
    return all(q[0] for q in parts), first, last


_uniform = {}


def digit_uniform(pattern, flags):
    """a run of digits may be replaced by a single digit without changing what the pattern matches"""
    key = (pattern, flags)
    r = _uniform.get(key)
    if r is None:
        try:
            _shape(list(parse(pattern, flags)))
            r = True
        except _NotUniform:
            r = False
        _uniform[key] = r
    return r


def do_match(pattern, flags, subject, mode, pos=0):
    if type(subject) is SymStr and any(type(x) is S.Dec for x in subject.p) and mode in ('match', 'fullmatch') \
            and isinstance(pattern, str) and pos == 0 and digit_uniform(pattern, flags):
        parts = list(subject.p)
        tree = parse(pattern, flags)
        ctx = Ctx([48 if type(x) is S.Dec else x for x in parts], False, tree.state.flags | flags)

        def done(j, g):
            return None if mode == 'fullmatch' and j != ctx.n else (j, g)
        r = m_seq(list(tree), 0, 0, {}, ctx, done)
        return None if r is None else SymMatch(subject, parts, 0, r[0], r[1], tree)
    its, isb = items_of(subject)
    pb = isinstance(pattern, bytes)
    if pb != isb:
        raise TypeError('cannot use a %s pattern on a %s object' %
                        ('bytes' if pb else 'string', 'bytes-like' if isb else 'string-like'))
    tree = parse(pattern, flags & ~re.UNICODE if pb else flags)
    fl = tree.state.flags | flags
    ctx = Ctx(list(its), isb, fl)
    nodes = list(tree)
    starts = range(pos, len(its) + 1) if mode == 'search' else (pos,)
    for st in starts:
        def fin(j, g):
            if mode == 'fullmatch' and j != ctx.n:
                return None
            return (j, g)
        r = m_seq(nodes, 0, st, {}, ctx, fin)
        if r is not None:
            return SymMatch(subject, its, st, r[0], r[1], tree)
    return None


def _template(repl, match):
    """expand a plain replacement template"""
    if isinstance(repl, bytes):
        if b'\\' in repl:
            raise T.Unsupported('replacement template')
    elif type(repl) is str and '\\' in repl:
        raise T.Unsupported('replacement template')
    return repl


def do_sub(pattern, flags, repl, subject, count=0):
    its, isb = items_of(subject)
    out = []
    i = 0
    n = 0
    last_end = -1
    while i <= len(its):
        if count and n >= count:
            break
        m = do_match(pattern, flags, subject, 'match', i)
        if m is not None and not (m.end() == m.start() and m.end() == last_end):
            r = repl(m) if callable(repl) else _template(repl, m)
            its2 = S._bytes_items(r) if isb else S._str_parts(r)
            out.extend(its2)
            n += 1
            last_end = m.end()
            if m.end() > i:
                i = m.end()
                continue
        if i < len(its):
            out.append(its[i])
        i += 1
    out.extend(its[i:])
    return (SymBytes.make(out) if isb else SymStr.make(out)), n


def finditer(pattern, flags, subject):
    its, isb = items_of(subject)
    i = 0
    while i <= len(its):
        m = do_match(pattern, flags, subject, 'search', i)
        if m is None:
            return
        yield m
        i = m.end() if m.end() > m.start() else m.end() + 1


def do_split(pattern, flags, subject, maxsplit=0):
    its, isb = items_of(subject)
    out = []
    mk_ = SymBytes.make if isb else SymStr.make
    last = 0
    for m in finditer(pattern, flags, subject):
        if maxsplit and len(out) >= maxsplit:
            break
        out.append(mk_(its[last:m.start()]))
        out.extend(m.groups())
        last = m.end()
    out.append(mk_(its[last:]))
    return out


def module_call(name, pat, a, k):
    flags = k.get('flags', 0)
    if isinstance(pat, re.Pattern):
        return pattern_method(pat, name, a, {x: y for x, y in k.items() if x != 'flags'})
    if type(pat) in (SymStr, SymBytes):
        return pattern_method(SymPattern(pat, flags), name, a, k)
    extra = 3 if name in ('sub', 'subn') else 1
    if len(a) > extra - 0 and name not in ('sub', 'subn', 'split'):
        flags |= a[1]
    return _run(pat, flags, name, a, k)


def _run(pat, flags, name, a, k):
    flags = int(flags)
    if name in ('match', 'search', 'fullmatch'):
        return do_match(pat, flags, a[0], name, a[1] if len(a) > 1 and isinstance(a[1], int) and False else 0)
    if name in ('sub', 'subn'):
        r = do_sub(pat, flags, a[0], a[1], k.get('count', a[2] if len(a) > 2 else 0))
        return r if name == 'subn' else r[0]
    if name == 'split':
        return do_split(pat, flags, a[0], k.get('maxsplit', a[1] if len(a) > 1 else 0))
    if name == 'finditer':
        return finditer(pat, flags, a[0])
    if name == 'findall':
        out = []
        for m in finditer(pat, flags, a[0]):
            g = m.groups()
            out.append(m.group(0) if not g else g[0] if len(g) == 1 else g)
        return out
    raise T.Unsupported('re.' + name)


def pattern_method(p, name, a, k):
    if isinstance(p, SymPattern):
        return getattr(p, name)(*a, **k)
    subj = a[1] if name in ('sub', 'subn') and len(a) > 1 else (a[0] if a else k.get('string'))
    if type(subj) not in T.SYM_TYPES and not (name in ('sub', 'subn') and callable(a[0])):
        return getattr(p, name)(*a, **k)
    if not a:
        a = (k.pop('string'),)
    return _run(p.pattern, p.flags & ~re.DEBUG if isinstance(p.pattern, bytes) else p.flags, name, a, k)


class SymPattern(object):
    """A pattern whose text is symbolic.  Metacharacters fork; the pattern is parsed with
    placeholder private-use characters standing for symbolic literal characters."""
    META = '\\.^$*+?{}[]|()'

    def __init__(self, p, flags=0):
        self.isb = not isinstance(p, str)
        its = list(p._items())
        self.flags = flags
        text = []
        self.holes = {}
        for idx, x in enumerate(its):
            if type(x) is int:
                text.append(chr(x))
                continue
            if bool(S.in_set(x, [ord(c) for c in self.META] + list(range(48, 58)) + [45, 44, 58, 61, 33, 60, 62, 35, 32] +
                             list(range(9, 14)) + list(range(65, 91)) + list(range(97, 123)))):
                # structural or potentially structural: letters after a backslash matter
                prev = text[-1] if text else ''
                if prev == '\\' or bool(S.in_set(x, [ord(c) for c in self.META])):
                    text.append(chr(T.engine().concretize(x)))
                    continue
            h = chr(0xE000 + idx) if not self.isb else chr(0xE000 + idx)
            self.holes[ord(h)] = x
            text.append(h)
        self.pattern = ''.join(text)
        try:
            self.tree = sp.parse(self.pattern, flags)
        except re.error:
            raise
        self.nodes = self._fill(list(self.tree))

    def _fill(self, nodes):
        out = []
        for op, av in nodes:
            if op in (sc.LITERAL, sc.NOT_LITERAL) and av in self.holes:
                out.append((op, self.holes[av]))
            elif op is sc.IN:
                items = []
                for o, v in av:
                    if o is sc.LITERAL and v in self.holes:
                        items.append((o, self.holes[v]))
                    elif o is sc.RANGE:
                        items.append((o, tuple(self.holes.get(q, q) for q in v)))
                    else:
                        items.append((o, v))
                out.append((op, items))
            elif op is sc.SUBPATTERN:
                out.append((op, (av[0], av[1], av[2], self._fill(list(av[3])))))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                out.append((op, (av[0], av[1], self._fill(list(av[2])))))
            elif op is sc.BRANCH:
                out.append((op, (av[0], [self._fill(list(q)) for q in av[1]])))
            elif op in (sc.AT, sc.ANY, sc.LITERAL, sc.NOT_LITERAL):
                out.append((op, av))
            else:
                raise T.Unsupported('symbolic pattern with %s' % op)
        return out

    def _do(self, subject, mode):
        its, isb = items_of(subject)
        if isb != self.isb:
            raise TypeError('cannot use a pattern of the other string kind')
        ctx = Ctx(list(its), isb, self.tree.state.flags | self.flags)
        for st in (range(len(its) + 1) if mode == 'search' else (0,)):
            def fin(j, g):
                if mode == 'fullmatch' and j != ctx.n:
                    return None
                return (j, g)
            r = m_seq(self.nodes, 0, st, {}, ctx, fin)
            if r is not None:
                return SymMatch(subject, its, st, r[0], r[1], self.tree)
        return None

    def match(self, s):
        return self._do(s, 'match')

    def search(self, s):
        return self._do(s, 'search')

    def fullmatch(self, s):
        return self._do(s, 'fullmatch')
