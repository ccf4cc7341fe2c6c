"""Namespace qualification of element tags: the loops that strip '{namespace}' are found in the
analysis log, and the new tag, as a function of the old one, is evaluated on the forms a tag can
have (qualified, unqualified, a comment)."""
import re
from .base import *
from .mirror import *

TAGS = (('{http://www.w3.org/2001/XMLSchema-instance}UCIS', 'UCIS'), ('{urn:x}sourceFiles', 'sourceFiles'), ('{u}id', 'id'),
        ('UCIS', 'UCIS'), ('historyNodes', 'historyNodes'), ('id', 'id'))


class Und(Exception):
    pass


class Err(Exception):
    pass


class Comment(object):
    """The tag of a comment or processing instruction is a function."""
    def __call__(self):
        pass


COMMENT = Comment()
NOATTR = object()
STR = {'find', 'rfind', 'index', 'rindex', 'split', 'rsplit', 'partition', 'rpartition', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip',
       'replace', 'removeprefix', 'removesuffix', 'count', 'lower', 'upper', 'title', 'swapcase', 'casefold'}
OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '>=': lambda a, b: a >= b, '>': lambda a, b: a > b, '<': lambda a, b: a < b,
       '<=': lambda a, b: a <= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '*': lambda a, b: a * b, '%': lambda a, b: a % b}


class Ev(object):
    def __init__(self, I, L, tag, pos):
        self.I, self.L, self.tag, self.pos = I, L, tag, pos
        self.el = mk('elem', L)

    def args(self, t):
        for e in self.I.log:
            if e.kind == 'call' and e.result is t:
                return e.name, e.args, e.recv
        raise Und()

    def qname(self, x):
        v = self.tag if x is self.el else self.go(x)
        if v is COMMENT:
            raise Err('etree.QName of a comment')
        if not isinstance(v, str):
            raise Und()
        return v

    def fn(self, name, args):
        if name.endswith('QName') and len(args) == 1:
            raise Und()
        if name == 're.sub' and len(args) == 3:
            p, r, x = [self.go(a) for a in args]
            if x is COMMENT:
                raise Err('re.sub on a comment')
            return re.sub(p, r, x)
        raise Und()

    def go(self, t):
        op, a = t.op, t.a
        if op == 'const':
            return cval(t)
        if op == 'attr':
            if a[0] is self.el and a[1] == 'tag':
                return self.tag
            if a[1] in ('localname', 'text', 'namespace'):
                q = a[0]
                ar = None
                if q.op == 'call' and str(q.a[1]).endswith('QName'):
                    ar = q.a[2]
                elif q.op == 'new' and q.a[0].endswith('QName'):
                    ar = self.args(q)[1]
                if ar is not None and len(ar) == 1:
                    v = self.qname(ar[0])
                    ns, br, ln = v.rpartition('}')
                    return {'localname': ln, 'text': v, 'namespace': ns[1:] if br else None}[a[1]]
            raise Und()
        if op == 'idx' and a[0] is self.L:
            return self.pos
        if op in ('truth', 'nonempty'):
            return bool(self.go(a[0]))
        if op == 'not':
            return not self.go(a[0])
        if op == 'isnone':
            return self.go(a[0]) is None
        if op == 'and':
            return all(self.go(x) for x in a)
        if op == 'or':
            return any(self.go(x) for x in a)
        if op == 'ite':
            return self.go(a[1]) if self.go(a[0]) else self.go(a[2])
        if op == 'isinst':
            v = self.go(a[0])
            ts = a[1].a if a[1].op == 'tuple' else [a[1]]
            if all(x.op == 'builtin' for x in ts):
                n = {x.a[0] for x in ts}
                return isinstance(v, str) and bool(n & {'str', 'object'}) or v is COMMENT and 'object' in n
            raise Und()
        if op == 'in':
            x, y = self.go(a[0]), self.go(a[1])
            if y is COMMENT:
                raise Err("'in' on the tag of a comment")
            return x in y
        if op == 'builtin':
            return {'str': str, 'len': len}.get(a[0]) or self.und()
        if op == 'hasattr':
            v = self.go(a[0])
            k = a[1] if isinstance(a[1], str) else self.go(a[1])
            return hasattr('', k) if isinstance(v, str) else hasattr(len, k) if v is COMMENT else self.und()
        if op == 'ext':
            if a[0].endswith(('.Comment', '.ProcessingInstruction', '.PI')):
                return COMMENT
            raise Und()
        if op == 'op':
            n = a[0]
            if n == 'callable':
                return self.go(a[1]) is COMMENT
            if n == 'type':
                v = self.go(a[1])
                return Comment if v is COMMENT else type(v)
            if n == 'len':
                v = self.go(a[1])
                if v is COMMENT:
                    raise Err('len of the tag of a comment')
                return len(v)
            if n == 'neg' and len(a) == 2:
                return -self.go(a[1])
            if n in OPS and len(a) >= 3:
                v = self.go(a[1])
                for x in a[2:]:
                    w = self.go(x)
                    if n not in ('==', '!=') and COMMENT in (v, w):
                        raise Err('arithmetic on the tag of a comment')
                    v = OPS[n](v, w)
                return v
            raise Und()
        if op == 'cat':
            vs = [self.go(x) for x in a]
            if COMMENT in vs:
                raise Err('string operation on a comment')
            return ''.join(vs)
        if op == 'str':
            v = self.go(a[0])
            return v if isinstance(v, str) else self.und()
        if op in ('tuple', 'list'):
            return tuple(self.go(x) for x in a)
        if op == 'slice':
            v = self.go(a[0])
            if v is COMMENT:
                raise Err('slicing the tag of a comment')
            lo, hi, st = [None if x is None or x is NONE else self.go(x) for x in a[1:4]]
            return v[lo:hi:st]
        if op == 'index':
            v = self.go(a[0])
            if v is COMMENT:
                raise Err('indexing the tag of a comment')
            try:
                return v[self.go(a[1])]
            except IndexError:
                raise Err('index out of range')
        if op == 'call':
            if a[0] is None:
                return self.fn(str(a[1]), a[2])
            v = self.go(a[0])
            if v is COMMENT:
                raise Err('%s of the tag of a comment' % a[1])
            if isinstance(v, str) and a[1] in STR and not (len(a) > 3 and a[3]):
                try:
                    return getattr(v, a[1])(*[self.go(x) for x in a[2]])
                except (ValueError, TypeError) as ex:
                    raise Err('%s: %s' % (a[1], ex))
            raise Und()
        if op == 'new':
            n, ar, recv = self.args(t)
            if recv is None:
                return self.fn(n, ar)
            return self.go(mk('call', recv, n, tuple(ar), ()))
        raise Und()

    def und(self):
        raise Und()


def domain(L, isdoc):
    """(all elements?, comments too?) of a loop over the document."""
    d = strip_it(L.domain)
    while d.op == 'listof':
        d = strip_it(d.a[0])
    if d.op == 'call' and d.a[0] is not None and isdoc(d.a[0]):
        n, ar, kw = d.a[1], d.a[2], (d.a[3] if len(d.a) > 3 else ())
        ar = list(ar) + [v for k, v in kw or ()]
        if n in ('iter', 'getiterator'):
            if not ar:
                return 'all', True
            if len(ar) == 1 and (ar[0].op == 'const' and cval(ar[0]) == '*' or ar[0].op == 'ext' and ar[0].a[0].endswith('.Element')):
                return 'all', False
            if len(ar) == 1 and ar[0].op == 'const' and cval(ar[0]) is None:
                return 'all', True
            if all(x.op == 'const' for x in ar):
                return 'some', False
        if n == 'iterdescendants' and not ar:
            return 'noroot', True
        if n in ('iterchildren', 'getchildren') and not ar:
            return 'some', True
        if n == 'xpath' and len(ar) == 1 and ar[0].op == 'const' and cval(ar[0]) in ('//*', './/*', '//node()'):
            return ('all' if cval(ar[0]) != './/*' else 'noroot'), False
    if isdoc(d):
        return 'some', True
    return None, True


def check(ctx, rule, construct, I, isdoc, sinks, site, needroot=True, comments=True, tags=TAGS, qualified=True):
    """Every tag has lost its namespace when the first sink is reached, and comments do no harm."""
    if not sinks:
        ctx.und(rule, construct, 'the place where the tags are used is not found', site)
        return
    alt = []     # uses of the tags under different conditions are looked at one by one
    for e in sorted(sinks, key=lambda e: e.seq):
        g = frozenset(c for c, t in e.guards if t not in ('exc', 'handler', 'raise') and not e.loops)
        if not any(h <= g for h, first in alt):
            alt.append((g, e))
    for i, (g, e) in enumerate(alt):
        check1(ctx, rule, construct + (' (%d)' % (i + 1) if len(alt) > 1 else ''), I, isdoc, sinks, e, g, needroot, comments, tags)


def check1(ctx, rule, construct, I, isdoc, sinks, sink, gates, needroot, comments, tags):
    end = sink.seq
    evs = [e for e in I.log if e.kind == 'setattr' and e.name == 'tag' and e.seq < end and e.recv is not None and
           not any(not_(c) in gates for c, t in e.guards)]
    mine, odd = [], []
    for e in evs:
        ls = [l for l in e.loops if e.recv is mk('elem', l)]
        k = domain(ls[0], isdoc) if ls else ('some' if isdoc(e.recv) else None, True)
        (mine if k[0] else odd).append((e, ls[0] if ls else None, k))
    opaque = [e for e in I.log if e.seq < end and e.kind == 'call' and e not in sinks and e.args and any(isdoc(a) for a in e.args)
              and not str(e.name).endswith('SubElement')]
    if not mine:
        late = [e for e in I.log if e.kind == 'setattr' and e.name == 'tag' and e.seq > end]
        if odd or opaque or any(e.kind == 'rec' and any(isdoc(x) for a in e.args or () for x in subterms(a)) for e in I.log if e.seq < end):
            ctx.und(rule, construct, 'how namespaces are removed is not understood', where((odd[0][0] if odd else sinks[0])))
        elif late:
            ctx.viol(rule, construct, 'namespaces are removed only after the tags have been used', where(late[0]))
        else:
            ctx.viol(rule, construct, 'namespaces are never removed from the element tags', where(sinks[0]))
        return
    if odd:
        ctx.und(rule, construct, 'a tag is set to %s' % show(odd[0][0].args[0])[:100], where(odd[0][0]))
        return
    by = []
    for e, L, k in mine:
        if not by or by[-1][0] is not L:
            by.append((L, k, []))
        by[-1][2].append(e)
    cover = {k[0] for L, k, es in by}
    e0 = mine[0][0]
    if 'all' not in cover and not ('noroot' in cover and not needroot):
        ctx.viol(rule, construct, 'namespaces are removed only from some elements: %s' % (
            'those of ' + show(by[0][0].domain)[:100] if by[0][0] is not None else show(e0.recv)[:100]), where(e0))
        return
    for L, k, es in by:
        for c in truncs(L) if L is not None else ():
            ctx.viol(rule, construct, 'the removal of namespaces stops early when %s' % show(c)[:140], where(e0))
            return
    cases = [(a, b) for a, b in tags] + ([(COMMENT, COMMENT)] if comments and any(k[1] for L, k, es in by) else [])
    for old, want in cases:
        for pos in (0, 1, 2, 7):
            cur = old
            for L, k, es in by:
                if k[0] == 'noroot' and pos == 0 or k[0] == 'some' or cur is COMMENT and not k[1]:
                    continue
                ev = Ev(I, L, cur, pos)
                try:
                    for e in es:
                        fire = True
                        for c, t in e.guards:
                            if t in ('exc', 'handler', 'raise') or c in gates:
                                continue
                            if not any(x is ev.el or x.op == 'idx' and x.a[0] is L for x in subterms(c)):
                                if c is TRUE:
                                    continue
                                raise Und()
                            if not ev.go(c):
                                fire = False
                                break
                        if fire:
                            v = ev.go(e.args[0])
                            cur = v
                except Und:
                    ctx.und(rule, construct, 'the new tag %s is not understood' % show(es[-1].args[0])[:100], where(es[-1]))
                    return
                except Err as ex:
                    ctx.viol(rule, construct, '%s: %s' % ('a document with a comment fails' if old is COMMENT else 'tag %s fails' % old, ex), where(es[-1]))
                    return
            if cur is not want and cur != want:
                ctx.viol(rule, construct, 'the tag %s becomes %s' % ('of a comment' if old is COMMENT else old, cur if isinstance(cur, str) else 'something else'),
                         where(e0))
                return
    ctx.ok(rule, construct, 'evaluated on %d forms of a tag' % len(cases), where(e0))
