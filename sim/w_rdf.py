"""World 'rdf': graphs imported or built, queried over and over (pattern matches, projections, joins, table exports) with
interrupts in between; plus the RDF jobs of the 'files' world. Expected solutions come from plain triples, not the library."""
import csv as _csv
import datetime
import decimal
import io
import itertools
import json as _json

import rdflib
import rdflib.term

from . import model as m
from .core import Result, Interrupter, EXCS, reset_level
from .enc import lib, to_m, build, to_model, show, Bad, val_dec
from .hist import audit_flags, unchanged

_n = [0]


class _Uuid:
    def __init__(self):
        _n[0] += 1
        self.hex = '%032x' % _n[0]


rdflib.term.uuid4 = _Uuid           # blank node names come from a counter, not from the machine

XSD = 'http://www.w3.org/2001/XMLSchema#'
RDFNS = 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'

# load the parser plugins before any simulated fault
for _fmt, _t in (('turtle', '<a:b> <a:c> 1 .'), ('nt', '<a:b> <a:c> "1" .\n'),
                 ('xml', '<rdf:RDF xmlns:rdf="%s"></rdf:RDF>' % RDFNS)):
    rdflib.Graph().parse(io.StringIO(_t), format=_fmt)
rdflib.util.guess_format('x.ttl')


# --- documents ----------------------------------------------------------------------------------
# term: ['u', iri] | ['b', n] | ['l', text, lang or None] | ['i', int] | ['f', float] | ['d', 'decimal'] | ['t', bool] | ['D', [y, m, d]]
def term_val(t):
    k = t[0]
    if k == 'u':
        return rdflib.URIRef(t[1])
    if k == 'b':
        return ('blank', t[1])
    if k in 'lif':
        return t[1]
    if k == 'd':
        return decimal.Decimal(t[1])
    if k == 't':
        return bool(t[1])
    return datetime.date(*t[1])


def term_m(t):
    return m.A(term_val(t))


def q(s):
    out = ''
    for c in s:
        out += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t'}.get(c, c)
    return '"%s"' % out


def typed(t):
    k = t[0]
    v = {'i': lambda: (str(t[1]), 'integer'), 'f': lambda: (repr(t[1]), 'double'), 'd': lambda: (t[1], 'decimal'),
         't': lambda: ('true' if t[1] else 'false', 'boolean'), 'D': lambda: ('%04d-%02d-%02d' % tuple(t[1]), 'date')}[k]()
    return v


def nt_term(t):
    if t[0] == 'u':
        return '<%s>' % t[1]
    if t[0] == 'b':
        return '_:b%d' % t[1]
    if t[0] == 'l':
        return q(t[1]) + ('@' + t[2] if t[2] else '')
    v, d = typed(t)
    return '%s^^<%s%s>' % (q(v), XSD, d)


def ttl_term(t):
    if t[0] == 'i':
        return str(t[1])
    if t[0] == 'd' and '.' in t[1]:
        return t[1]
    if t[0] == 't':
        return 'true' if t[1] else 'false'
    if t[0] == 'f':
        return '%se0' % repr(t[1])
    return nt_term(t)


def xesc(s):
    for a, b in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;'), ('"', '&quot;'), ('\r', '&#13;'), ('\n', '&#10;'), ('\t', '&#9;')):
        s = s.replace(a, b)
    return s


def graph_text(triples, fmt):
    if fmt == 'nt':
        return ''.join('%s %s %s .\n' % tuple(nt_term(x) for x in t) for t in triples)
    if fmt in ('turtle', 'n3'):
        out, last = '', None
        for s, p, o in triples:
            if last and last[0] == s and last[1] == p:
                out += ' , ' + ttl_term(o)
            elif last and last[0] == s:
                out += ' ;\n  %s %s' % (ttl_term(p), ttl_term(o))
            else:
                out += (' .\n' if last else '') + '%s %s %s' % tuple(ttl_term(x) for x in (s, p, o))
            last = (s, p)
        return out + (' .\n' if last else '')
    out = '<?xml version="1.0" encoding="utf-8"?>\n<rdf:RDF xmlns:rdf="%s" xmlns:x="http://x/">\n' % RDFNS
    for s, p, o in triples:
        out += '<rdf:Description rdf:%s="%s">' % (('about', xesc(s[1])) if s[0] == 'u' else ('nodeID', 'b%d' % s[1]))
        tag = 'x:' + p[1][len('http://x/'):]
        if o[0] == 'u':
            out += '<%s rdf:resource="%s"/>' % (tag, xesc(o[1]))
        elif o[0] == 'b':
            out += '<%s rdf:nodeID="b%d"/>' % (tag, o[1])
        elif o[0] == 'l':
            out += '<%s%s>%s</%s>' % (tag, ' xml:lang="%s"' % o[2] if o[2] else '', xesc(o[1]), tag)
        else:
            v, d = typed(o)
            out += '<%s rdf:datatype="%s%s">%s</%s>' % (tag, XSD, d, xesc(v), tag)
        out += '</rdf:Description>\n'
    return out + '</rdf:RDF>\n'


def triple(s, p, o):
    return m.S([m.C(m.A('s'), s), m.C(m.A('p'), p), m.C(m.A('o'), o)])


def graph_model(triples):
    return m.S(triple(*[term_m(x) for x in t]) for t in triples)


def import_matches(got, triples):
    """None if the imported clan is the graph (blank nodes up to renaming to fresh IRIs), else what is wrong."""
    blanks = sorted({x[1] for t in triples for x in t if x[0] == 'b'})
    known = {x[1] for t in triples for x in t if x[0] == 'u'}
    if got[0] != 's':
        return 'is not a set'
    fresh = set()
    for r in got[1]:
        for c in (r[1] if r[0] == 's' else ()):
            if c[0] == 'c' and c[2][0] == 'a':
                v = c[2][2]
                if isinstance(v, rdflib.BNode):
                    return 'still contains the blank node %r' % v
                if isinstance(v, rdflib.URIRef) and str(v) not in known:
                    fresh.add(v)
    if len(fresh) != len(blanks):
        return 'has the IRIs %s for %d blank nodes' % (sorted(fresh), len(blanks))
    for perm in itertools.permutations(sorted(fresh)):
        ren = dict(zip(blanks, perm))
        exp = m.S(triple(*[m.A(ren[x[1]]) if x[0] == 'b' else term_m(x) for x in t]) for t in triples)
        if exp == got:
            return None
    return 'differs from the document'


# --- expected solutions -------------------------------------------------------------------------
def sol(pairs):
    return m.S(m.C(m.A(k), v) for k, v in pairs)


def match_model(g, pat, proj):
    """pat, proj: {left value: model value / new name}"""
    out = []
    for t in g[1]:
        d = {c[1]: c[2] for c in t[1]}
        if all(d.get(m.A(k)) == v for k, v in pat.items()):
            out.append(sol((n, d[m.A(k)]) for k, n in proj.items() if m.A(k) in d))
    return m.S(out)


def is_triple_model(v):
    return v[0] == 's' and len(v[1]) == 3 and all(c[0] == 'c' for c in v[1]) and \
        {c[1] for c in v[1]} == {m.A('s'), m.A('p'), m.A('o')}


def is_graph_model(v):
    return v[0] == 's' and len(v[1]) > 0 and all(is_triple_model(t) for t in v[1])


# --- files jobs ---------------------------------------------------------------------------------
EXT = {'turtle': '.ttl', 'nt': '.nt', 'xml': '.rdf', 'n3': '.n3'}


def import_job(w, job, disk, hooks, prop, where):
    from algebraixlib.import_export.rdf import import_graph
    text = graph_text(job['doc'], job['fmt'])
    cut = job.get('cut')
    must = ()
    if cut is not None:
        text = text[:min(cut, max(0, len(text) - 1))]
        must = (Exception,)
        w.res.fault('truncated-input')
    path = '/sim/g' + EXT[job['fmt']]
    kw = {} if job.get('guess') else {'rdf_format': job['fmt']}
    data = text.encode('utf-8')
    # (some rdflib and SAX parsers close the file object they are given; that is theirs to decide)
    if job['via'] == 'path':
        disk.files[path] = bytearray(data)
        src = path
    elif job['via'] == 'file':
        disk.files[path] = bytearray(data)
        keep, disk.faults = disk.faults, {}
        src, raw = disk.caller_file(path, 'rb' if job.get('bytes') else 'r')
        disk.faults = keep
    elif job.get('bytes'):
        src = io.BytesIO(data)
    else:
        src = io.StringIO(text)
    ok, val = w.call(lambda: import_graph(src, **kw), disk, hooks, prop, where, may_fail=must, wrap_ok=cut is not None)
    if not ok:
        return
    w.res.checks += 1
    if cut is not None:
        # whatever was accepted must be part of the graph
        try:
            got = to_model(val)
        except Bad as e:
            w.res.bad(prop, 'importing %r: malformed result: %s' % (text[:300], e), where)
        return
    check_import(w.res, val, job['doc'], text, prop, where)


def check_import(res, val, doc, text, prop, where):
    try:
        got = to_model(val)
    except Bad as e:
        res.bad(prop, 'importing %r: malformed result: %s' % (text[:300], e), where)
        return False
    bad = import_matches(got, doc)
    if bad:
        res.bad(prop, 'importing %r gave %s, which %s' % (text[:300], show(got)[:400], bad), where)
        return False
    audit_flags(res, [val], where)
    return True


DATATYPE = {'int': 'integer', 'float': 'double', 'bool': 'boolean', 'Decimal': 'decimal', 'date': 'date'}


def export_job(w, job, disk, hooks, prop, where):
    from algebraixlib.import_export.rdf import export_table
    res = w.res
    obj = build(job['e'], job.get('route', 0))
    mv = to_m(job['e'])
    lefts = job.get('lefts')
    if lefts is None:
        lm = {c[1] for r in mv[1] for c in r[1]} if m.is_clan(mv) else {m.A('?a')}
        lo = obj.get_left_set() if m.is_clan(mv) else build(['S', [['A', '?a']]])
    else:
        lo = build(['S', lefts])
        lm = {to_m(x) for x in lefts}
    tgt, closed, get, touched = w.target(job, disk, hooks)
    table = m.is_clan(mv) and m.absolute(mv)
    good = table and lm and all(x[0] == 'a' for x in lm) and job['fmt'] in ('csv', 'json')
    ok, val = w.call(lambda: export_table(tgt, lo, obj, out_format=job['fmt']), disk, hooks, prop, where,
                     may_fail=() if good else (AssertionError, TypeError))
    w.not_closed(closed, 'export_table', where)
    res.checks += 1
    unchanged(res, prop, obj, mv, 'export_table', where)
    unchanged(res, prop, lo, ('s', frozenset(lm)), 'export_table', where)
    audit_flags(res, [obj], where)
    if not good:
        if not ok and val is not None and touched() and 'old contents' not in get()[:20]:
            res.bad(prop, 'refusing to export %s wrote to the target' % show(mv), where)
        return
    if not ok:
        return
    out = get()
    names = [str(l[2]) for l in lm]
    rows = []
    loose = 0
    for r in m.elems(mv):
        d = {}
        for l in lm:
            rt = [c[2] for c in r[1] if c[1] == l]
            if len(rt) > 1:
                loose += 1
            if len(rt) == 1:
                d[str(l[2])] = rt[0]
        rows.append(d)
    res.checks += 1
    what = 'exporting %s as %s wrote %r' % (show(mv), job['fmt'], out[:400])
    if job['fmt'] == 'csv':
        got = [[''] if r == [] else r for r in _csv.reader(io.StringIO(out, newline=''), skipinitialspace=True)]
        head, body = (got[0], got[1:]) if got else ([], [])
        conv = lambda d, h: [str(d[x][2]) if x in d else '' for x in h]     # noqa
        gotb = sorted(body)
    else:
        try:
            doc = _json.loads(out)
            head, body = doc['head']['vars'], doc['results']['bindings']
            gotb = sorted((sorted((k, sorted(v.items())) for k, v in b.items()) for b in body))
        except Exception as e:
            res.bad(prop, what + ', which is not a SPARQL JSON result: %r' % e, where)
            return

        def conv(d, h):
            o = []
            for k, a in d.items():
                v = a[2]
                b = dict(value=str(v), type='uri' if isinstance(v, rdflib.URIRef) else 'bnode' if isinstance(v, rdflib.BNode) else 'literal')
                if b['type'] == 'literal' and a[1] in DATATYPE:
                    b['datatype'] = XSD + DATATYPE[a[1]]
                o.append((k, sorted(b.items())))
            return sorted(o)
    if sorted(head) != sorted(names) or len({type(l[2]) for l in lm}) == 1 and list(head) != [str(x) for x in sorted(l[2] for l in lm)]:
        res.bad(prop, what + ', expected the columns %s' % sorted(names), where)
        return
    if loose:
        if len(gotb) != len(rows):
            res.bad(prop, what + ', expected %d rows' % len(rows), where)
        return
    want = sorted(conv(d, head) for d in rows)
    if gotb != want:
        res.bad(prop, what + ', expected the rows %s' % want, where)


# --- the query world ----------------------------------------------------------------------------
class Rdf:
    def __init__(self, case, res):
        self.case, self.res = case, res
        self.objs, self.models = {}, {}

    def raw(self, a):
        """An argument as the user passes it: raw value, or a built object."""
        if a is None:
            return None
        return val_dec(a['raw']) if 'raw' in a else term_val(a['term']) if 'term' in a else build(a['l'])

    def rm(self, a):
        return m.A(self.raw(a)) if 'l' not in a else to_m(a['l'])

    def add(self, id, obj, mv):
        self.objs[id], self.models[id] = obj, mv

    def do(self, n, st):
        res, L = self.res, lib()
        R = L['rdf']
        op = st['op']
        where = 'rdf.%s#%d' % (op, n)
        ids = [i for i in st.get('g', ())]
        if any(i not in self.objs for i in ids):
            return
        os_ = [self.objs[i] for i in ids]
        ms = [self.models[i] for i in ids]
        may = ()
        doc = None
        if op == 'import':
            from algebraixlib.import_export.rdf import import_graph
            doc = st['doc']
            text = graph_text(doc, st['fmt'])
            f = lambda: import_graph(io.StringIO(text), rdf_format=st['fmt'])       # noqa
            exp = None
        elif op == 'build':
            exp = to_m(st['e'])
            if st.get('mk') and exp[1]:
                def f():
                    ts = []
                    for t in st['e'][1]:
                        d = {c[1][1]: build(c[2]) for c in t[1]}
                        ts.append(R.make_triple(d['s'], d['p'], object_=d['o']))
                    return L['mo'].Set(ts)
            else:
                f = lambda: build(st['e'], st.get('route', 0))      # noqa
        elif op == 'match':
            args = [self.raw(a) for a in st['args']]
            pat, proj = {}, {}
            for k, a, v in zip('spo', st['args'], args):
                if isinstance(v, str) and v[:1] in ('?', '$'):
                    proj[k] = v
                elif v is not None:
                    pat[k] = self.rm(a)
            f = lambda: R.triple_match(os_[0], *args) if st.get('pos') else R.triple_match(     # noqa
                os_[0], subject=args[0], predicate=args[1], object_=args[2])
            exp = match_model(ms[0], pat, proj) if is_graph_model(ms[0]) else m.U('kind')
            may = () if is_graph_model(ms[0]) else (AssertionError,)
        elif op in ('project', 'pattern'):
            pat = {val_dec(k): self.raw(v) for k, v in st['pat']}
            patm = {val_dec(k): self.rm(v) for k, v in st['pat']}
            clan = m.is_clan(ms[0])
            may = () if clan else (AssertionError,)
            if op == 'pattern':
                proj = {}
                f = lambda: R.pattern_match(os_[0], pat)        # noqa
                exp = m.S(r for r in ms[0][1] if all(m.C(m.A(k), v) in r[1] for k, v in patm.items())) if clan else m.U('kind')
            else:
                proj = {val_dec(k): val_dec(v) for k, v in st['proj']}
                f = lambda: R.match_and_project(os_[0], pat or None, proj)      # noqa
                exp = m.U('kind')
                if clan:
                    exp = m.S(m.S(m.C(m.A(n), c[2]) for k, n in proj.items() for c in r[1] if c[1] == m.A(k))
                              for r in ms[0][1] if all(m.C(m.A(k), v) in r[1] for k, v in patm.items()))
        elif op == 'join':
            f = lambda: R.join(*os_)        # noqa
            exp = ms[0]
            for x in ms[1:]:
                exp = m.cl_cfu(exp, x)
        elif op in ('is_triple', 'is_absolute_triple', 'is_graph', 'is_absolute_graph'):
            f = lambda: getattr(R, op)(os_[0])      # noqa
            exp = is_triple_model(ms[0]) if 'triple' in op else is_graph_model(ms[0])
            if 'absolute' in op:
                exp = exp and m.absolute(ms[0])
        given = [pat, proj] if op in ('project', 'pattern') else []
        before = repr(given)
        res.steps += 1
        exc = val = None
        it = None
        try:
            if 'int' in st:
                it = Interrupter(*st['int'])
                with it:
                    val = f()
            else:
                val = f()
        except BaseException as e:      # noqa
            if type(e).__name__ == 'Hang':
                raise
            exc = e
        if it is not None and it.fired:
            res.fault('interrupt:' + st['int'][1])
            if exc is None or type(exc) is not EXCS[st['int'][1]]:
                res.bad('P10', 'rdf.%s interrupted at %s did not pass on the interrupt' % (op, it.where), where)
        elif exc is not None:
            if not isinstance(exc, may):
                res.bad('P17', '%s(%s) raised %s: %s' % (op, self.show(st, ms), type(exc).__name__, str(exc)[:200]), where)
        else:
            res.checks += 1
            if doc is not None:
                if check_import(res, val, doc, text, 'P17', where):
                    self.add(st['id'], val, to_model(val))
            elif isinstance(exp, bool):
                if val is not exp:
                    res.bad('P17', '%s(%s) = %r, expected %r' % (op, self.show(st, ms), val, exp), where)
            elif isinstance(exp, m.U):
                if may and val is not L['ud'].Undef():
                    res.bad('P17', '%s(%s) gave %r' % (op, self.show(st, ms), val), where)
            else:
                try:
                    got = to_model(val) if isinstance(val, L['mo'].MathObject) else None
                except Bad as e:
                    got = 'malformed: %s' % e
                if got != exp:
                    res.bad('P17', '%s(%s) = %s, expected %s' % (op, self.show(st, ms), show(got) if isinstance(got, tuple) else repr(val) if got is None else got,
                                                                 show(exp)), where)
                else:
                    audit_flags(res, [val], where)
                    if 'id' in st:
                        self.add(st['id'], val, exp)
        res.state(op, type(exc).__name__, [getattr(getattr(o, '_flags', None), 'asint', 0) for o in os_],
                  len(exp[1]) if isinstance(exp, tuple) else exp.__class__.__name__, len(st.get('pat', ())))
        res.trace.append((op, type(exc).__name__, show(exp) if isinstance(exp, tuple) else repr(exp.__class__)))
        for i, o, mv in zip(ids, os_, ms):
            if not unchanged(res, 'P17', o, mv, op, where):
                self.objs.pop(i, None)
        if repr(given) != before:
            for p in ('P17', 'P07'):
                res.bad(p, '%s changed the dictionaries it was given: %r, before %s' % (op, given, before), where)
        audit_flags(res, os_, where)

    def show(self, st, ms):
        a = [show(x)[:300] for x in ms]
        for x in st.get('args', ()):
            a.append(repr(self.raw(x)))
        if 'pat' in st:
            a.append('pattern ' + repr({k: self.raw(v) for k, v in st['pat']}))
        if 'proj' in st:
            a.append('projection ' + repr(st['proj']))
        return ', '.join(a)


def run(case):
    res = Result()
    reset_level()
    _n[0] = 0
    w = Rdf(case, res)
    for n, st in enumerate(case['steps']):
        w.do(n, st)
    return res


# --- generation ---------------------------------------------------------------------------------
URIS = ['http://x/a', 'http://x/b', 'http://x/c', 'id:james', 'urn:y:z', 'http://x/é']
PREDS = ['http://x/p', 'http://x/q', 'http://x/r', 'http://x/type']
TEXTS = ['x', 'y', '', '1', 'a "b"', 'l1\nl2', 'back\\slash', 'é', '?q', "it's", ' ', 'tab\t', 'r\r', 'comma, x', '<&>']


def gen_term(rng, pos, nb):
    x = rng.random()
    if pos == 'p':
        return ['u', rng.choice(PREDS[:3])]
    if nb and x < .15:
        return ['b', rng.randrange(nb)]
    if pos == 's' or x < .5:
        return ['u', rng.choice(URIS)]
    if x < .8:
        return ['l', rng.choice(TEXTS), rng.choice([None, None, None, 'en'])]
    return rng.choice([['i', rng.choice([0, 1, 2, -3])], ['f', rng.choice([1.0, 2.5])], ['d', '1.5'], ['t', rng.choice([0, 1])],
                       ['D', [2001, 2, 3]]])


def gen_doc(rng, nmax=7):
    nb = rng.choice([0, 0, 1, 2])
    pool = {p: [gen_term(rng, p, nb) for _ in range(rng.choice([1, 2, 3]))] for p in 'spo'}
    out = []
    big = 0 if nmax < 7 or rng.random() > .03 else rng.choice([25, 60, 130])
    if big:
        pool['s'] = [['u', 'http://x/s%d' % i] for i in range(big)]
        pool['o'] += [['i', i] for i in range(9)] + [['l', 'long text ' * 300, None]]
    for _ in range(big or rng.randrange(nmax + 1)):
        t = [rng.choice(pool[p]) for p in 'spo']
        if t not in out or rng.random() < .1:
            out.append(t)
    if rng.random() < .5:
        out.sort(key=repr)
    return out


def gen_rdf_in(rng, rate):
    job = dict(kind='rdf_in', doc=gen_doc(rng), fmt=rng.choice(['turtle', 'turtle', 'nt', 'xml', 'n3']),
               via=rng.choice(['path', 'path', 'file', 'stringio']))
    if job['via'] == 'path' and rng.random() < .5 or job['via'] == 'stringio' and job['fmt'] == 'turtle' and rng.random() < .5:
        job['guess'] = 1
    if rng.random() < .4:
        job['bytes'] = 1
    if rng.random() < rate * .3:
        job['cut'] = rng.choice([0, 5, 20, 40, 80, 200])
    if job['via'] in ('path', 'file'):
        from .w_files import gen_disk
        job['disk'] = gen_disk(rng, rate)
    return job


def term_lit(t):
    k = t[0]
    if k == 'u':
        return ['A', {'t': 'uri', 'v': t[1]}]
    if k == 'b':
        return ['A', {'t': 'bnode', 'v': 'n%d' % t[1]}]
    if k == 'd':
        return ['A', {'t': 'dec', 'v': t[1]}]
    if k == 'D':
        return ['A', {'t': 'date', 'v': t[1]}]
    return ['A', bool(t[1]) if k == 't' else t[1]]


def gen_table_out(rng, rate):
    from .w_files import gen_disk
    names = rng.sample(['?a', '?b', '$c', 'd e', '"q"', 'é', 'x,y'], rng.choice([1, 2, 2, 3]))
    lits = [['A', n] for n in names]
    if rng.random() < .15:
        lits[0] = rng.choice([['A', 1], ['A', {'t': 'bnode', 'v': '_:b0'}]])
    pool = [term_lit(gen_term(rng, 'o', 2)) for _ in range(rng.choice([2, 3, 5]))]
    p = rng.choice([0, 0, .2, .5])
    rels = []
    big = 0 if rng.random() > .03 else rng.choice([25, 60, 130])
    if big:
        pool += [['A', 'v%d' % i] for i in range(big)]
    for _ in range(big or rng.choice([0, 1, 1, 2, 3, 4])):
        rels.append(['S', [['C', l, rng.choice(pool)] for l in lits if rng.random() >= p]])
        if rng.random() < .04:
            rels[-1][1].append(['C', lits[0], rng.choice(pool)])
    e = ['S', rels]
    x = rng.random()
    if x < .04:
        e = ['M', [[r, 1] for r in rels]]
    elif x < .08:
        e = ['S', rels + [['A', 'zz']]]
    elif x < .1 and rels:
        e = rels[0]
    job = dict(kind='table_out', e=e, route=rng.choice([0, 2, 4]), fmt=rng.choice(['csv', 'json', 'json']),
               via=rng.choice(['path', 'path', 'stringio', 'obj', 'file']))
    if rng.random() < .02:
        job['fmt'] = 'tsv'
    if rng.random() < .6 or not rels:
        ls = list(lits)
        if len(ls) > 1 and rng.random() < .3:
            ls.pop()
        if rng.random() < .2:
            ls.append(['A', '?zz'])
        rng.shuffle(ls)
        job['lefts'] = ls if rng.random() < .95 else []
    if rng.random() < .3:
        job['exists'] = 0
    if job['via'] in ('path', 'file'):
        job['disk'] = gen_disk(rng, rate if job['via'] == 'path' else 0, True)
    elif job['via'] == 'obj' and rng.random() < rate:
        job['fail'] = [['write', rng.choice([1, 2, 3, 5, 9, 14]), rng.choice(['oserror', 'error', 'interrupt'])]]
    return job


def case(rng, interrupts=.1):
    from . import gen
    steps, ids, sols = [], [], []
    k = 0
    docs = []
    rows = {}       # about how many solutions
    for _ in range(rng.choice([1, 1, 2])):
        doc = gen_doc(rng)
        docs += doc
        k += 1
        if rng.random() < .4 and doc:
            steps.append(dict(op='import', doc=doc, fmt=rng.choice(['turtle', 'nt', 'xml']), id=k))
        else:
            ts = [['S', [['C', ['A', 's'], term_lit(t[0])], ['C', ['A', 'p'], term_lit(t[1])], ['C', ['A', 'o'], term_lit(t[2])]]]
                  for t in doc]
            st = dict(op='build', e=['S', gen.dedupe(ts)], route=rng.choice([0, 2, 3]), id=k)
            if rng.random() < .4:
                st['mk'] = 1
            x = rng.random()
            if x < .06 and ts:
                st = dict(op='build', e=ts[0], route=0, id=k)
            elif x < .12 and ts:
                drop = rng.randrange(3)
                bad = ['S', [c for i, c in enumerate(ts[0][1]) if i != drop]]
                if rng.random() < .5:
                    bad[1].append(['C', ['A', rng.choice(['s', 'x'])], ['A', 5]])
                st = dict(op='build', e=['S', gen.dedupe([bad] + ts[1:])], route=0, id=k)
            elif x < .16:
                st = dict(op='build', e=['M', [[t, 1] for t in gen.dedupe(ts)]], route=0, id=k)
            elif x < .2 and ts:
                ts[0][1][2] = ['C', ['A', 'o'], ['S', [['A', 1]]]]
                st = dict(op='build', e=['S', gen.dedupe(ts)], route=0, id=k)
            steps.append(st)
        ids.append(k)

    def arg(pos):
        x = rng.random()
        if x < .5:
            return {'raw': rng.choice(['?', '$']) + rng.choice('abc') + pos if rng.random() < .6 else rng.choice('?$') + pos}
        if x < .6 or not docs:
            return None
        t = rng.choice(docs)['spo'.index(pos)] if rng.random() < .9 else gen_term(rng, pos, 0)
        if t[0] == 'b' or t[0] == 'l' and t[1][:1] in ('?', '$'):
            return None
        return {'l': term_lit(t)} if rng.random() < .3 else {'term': t}
    shared = rng.random() < .7
    for _ in range(rng.choice([2, 3, 4, 6])):
        x = rng.random()
        g = rng.choice(ids)
        if x < .45:
            args = [arg(p) for p in 'spo']
            if shared:          # variables shared between patterns, so that joins have work to do
                free = rng.sample(['?x', '?y', '?z'], 3)
                args = [{'raw': free[i]} if a and 'raw' in a else a for i, a in enumerate(args)]
            k += 1
            st = dict(op='match', g=[g], args=args, id=k)
            if rng.random() < .3:
                st['pos'] = 1
            rows[k] = len(docs) if args[0] is None or 'raw' in args[0] else 6
            sols.append(k)
        elif x < .65 and len(sols) > 0:
            k += 1
            st = dict(op='join', g=[rng.choice(sols) for _ in range(rng.choice([2, 2, 3]))], id=k)
            rows[k] = 1
            for i in st['g']:
                rows[k] *= max(1, rows[i])
            if rows[k] > 6000:
                continue
            sols.append(k)
        elif x < .8:
            pat = [[p, a] for p, a in ((p, arg(p)) for p in 'spo') if a and 'raw' not in a and rng.random() < .5]
            if rng.random() < .5:
                k += 1
                st = dict(op='pattern', g=[rng.choice(ids + sols)], pat=pat, id=k)
                ids.append(k)
            else:
                ls = rng.sample('spo', rng.choice([0, 1, 2, 3]))
                k += 1
                st = dict(op='project', g=[g], pat=pat, proj=[[l, 'n' + l if rng.random() < .7 else rng.choice('spo') + 'x' + l] for l in ls], id=k)
                rows[k] = len(docs)
                sols.append(k)
        else:
            st = dict(op=rng.choice(['is_triple', 'is_absolute_triple', 'is_graph', 'is_absolute_graph', 'is_graph']),
                      g=[rng.choice(ids + sols)])
        if rng.random() < interrupts:
            st2 = dict(st)
            st2.pop('id', None)
            st2['int'] = [rng.randrange(1, 150), rng.choice(['interrupt', 'interrupt', 'memory', 'recursion'])]
            steps.append(st2)
        steps.append(st)
    return dict(world='rdf', steps=steps)
