"""World 'files': imports and exports on a simulated disk, with faulty devices, failing conversions and callbacks, caller
supplied files and writers, nested imports and retries. Every job says what to do, how its data is delivered and what goes
wrong; the expected outcome comes from the model of the document, not from the library."""
import csv as _csv
import gc
import io
import json as _json
import sys

from . import model as m
from .core import Result, SimInterrupt, Interrupter, EXCS, reset_level
from .disk import Disk, SimOSError
from .enc import lib, to_m, build, to_model, show, Bad, val_dec, val_enc
from .hist import audit_flags, ask_all, unchanged, STATUS


class ConvError(Exception):
    pass


# --- documents ----------------------------------------------------------------------------------
def csv_text(job):
    """Own CSV writer: job['rows'] of cells (None: missing) with job['style']."""
    st = job.get('style') or {}
    eol = st.get('eol', '\n')
    q = st.get('quote', 0)          # 0: only where needed, 1: always, 2: every other cell
    out = []
    n = 0

    def cell(c):
        nonlocal n
        n += 1
        c = c or ''
        if q == 1 or q == 2 and n % 2 or any(x in c for x in ',"\r\n') or c == '' and len(job['cols']) == 1:
            return '"' + c.replace('"', '""') + '"'
        return c
    for l in job.get('pre', ()):
        out.append(l)
    if not job.get('columns'):
        out.append(','.join(cell(c) for c in job['cols']))
    for r in job['rows']:
        r = list(r)
        if st.get('ragged'):
            while len(r) > 1 and r[-1] is None and not (len(r) == 2 and not r[0]):     # never a blank line
                r.pop()
        out.append(','.join(cell(c) for c in r))
    t = eol.join(out)
    return t if st.get('nofinal') and out and job['rows'] and out[-1] != '' else t + eol


CONV = {
    'int': lambda s: int(s), 'float': lambda s: float(s), 'upper': lambda s: s.upper(), 'len': lambda s: len(s),
    'wrap': lambda s: (s,), 'bool': lambda s: s == '1', 'str': lambda s: s, 'const': lambda s: 'k', 'strip': lambda s: s.strip(),
}


def csv_model(job):
    """(expected value, failing conversion number or None)"""
    rows = []
    for i, r in enumerate(job['rows']):
        d = {}
        for c, v in zip(job['cols'], r):
            if v is None or v == '':
                continue
            t = (job.get('types') or {}).get(c)
            d[c] = CONV[t](v) if t else v
        if job.get('index'):
            d[job['index']] = i
        rows.append(m.S(m.C(m.A(k), m.A(v)) for k, v in d.items()))
    if job.get('dup'):
        c = {}
        for r in rows:
            c[r] = c.get(r, 0) + 1
        return m.M(c)
    return m.S(rows)


def esc(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    return s.replace('"', '&quot;') if attr else s


def xml_text(t, style=0):
    if t[0] == 't':
        return esc(t[1])
    a = ''.join(' %s="%s"' % (k, esc(v, True)) for k, v in t[2])
    if not t[3]:
        return '<%s%s/>' % (t[1], a) if style % 2 else '<%s%s></%s>' % (t[1], a, t[1])
    pad = '\n  ' if style >= 2 and all(c[0] == 'e' for c in t[3]) else ''
    return '<%s%s>%s%s</%s>' % (t[1], a, ''.join(pad + xml_text(c, style) for c in t[3]), '\n' if pad else '', t[1])


def num(s, conv):
    if conv:
        for f in (int, float):
            try:
                return f(s)
            except ValueError:
                pass
    return s


def xml_model(t, conv):
    def node(t):
        if t[0] == 't':
            s = t[1].strip()
            return m.C(m.A('$'), m.A(num(s, conv))) if s else None
        kids = []
        run = ''
        for c in t[3] + [None]:         # adjacent texts are one text node
            if c is not None and c[0] == 't':
                run += c[1]
                continue
            if run:
                kids.append(node(['t', run]))
                run = ''
            if c is not None:
                kids.append(node(c))
        ch = m.S([k for k in kids if k] + [m.C(m.A(k), m.A(num(v, conv))) for k, v in t[2]])
        if len(ch[1]) == 1:
            (c,) = ch[1]
            if c[1] == m.A('$'):
                return m.C(m.A(t[1]), c[2])
        return m.C(m.A(t[1]), ch)
    return m.S([node(t)])


def json_model(t):
    def proc(x):
        out = []
        if isinstance(x, list):
            for e in x:
                out.append(m.S(proc(e)))
        else:
            for k, v in x.items():
                if isinstance(v, list):
                    for e in v:
                        out.append(m.C(m.A(k), m.S(proc(e))))
                elif isinstance(v, dict):
                    out.append(m.C(m.A(k), m.S(proc(v))))
                else:
                    out.append(m.C(m.A(k), m.A(v)))
        return out
    return m.S(proc(t))


PROP_OF = dict(csv_in='P12', csv_out='P13', xml_in='P16', xml_str='P16', json_in='P16', table_out='P17', rdf_in='P17')


# --- caller supplied objects --------------------------------------------------------------------
class Hooks:
    """Nested jobs and scripted failures at numbered points (lines, conversions, writes, keys)."""

    def __init__(self, world, job):
        self.world, self.job, self.n = world, job, {}
        self.raised = None

    def hit(self, kind):
        k = self.n[kind] = self.n.get(kind, 0) + 1
        for j in self.job.get('nested', ()):
            if j['at'] == [kind, k]:
                self.world.res.fault('nested-at-' + kind)
                self.world.do_job(j['job'], nested=True)
        for f in self.job.get('fail', ()):
            if f[0] == kind and f[1] == k:
                self.world.res.fault('%s-%s' % (kind, f[2]))
                self.raised = {'error': ConvError, 'interrupt': SimInterrupt, 'oserror': SimOSError, 'memory': MemoryError}[f[2]]('scripted')
                raise self.raised


class LineSource:
    """A duck-typed text source: has readlines, yields lines one at a time."""

    def __init__(self, text, hooks):
        self.lines, self.hooks, self.closed = io.StringIO(text, newline='').readlines(), hooks, False
        self.i = 0

    def readlines(self):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        self.hooks.hit('line')
        if self.i >= len(self.lines):
            raise StopIteration
        self.i += 1
        return self.lines[self.i - 1]

    def read(self, n=-1):
        self.hooks.hit('read')
        rest = ''.join(self.lines)[self.i:]
        if n is None or n < 0:
            self.i += len(rest)
            return rest
        sizes = self.hooks.job.get('pieces') or [n]
        k = max(1, min(n, sizes[self.hooks.n['read'] % len(sizes)]))
        self.i += k
        return rest[:k]

    def close(self):
        self.closed = True


class ByteSource(LineSource):
    def __init__(self, text, hooks):
        self.hooks, self.closed, self.data, self.i = hooks, False, text.encode('utf-8'), 0

    def __iter__(self):
        return iter(())

    def read(self, n=-1):
        self.hooks.hit('read')
        rest = self.data[self.i:]
        if n is not None and n >= 0:
            sizes = self.hooks.job.get('pieces') or [n]
            rest = rest[:max(1, min(n, sizes[self.hooks.n['read'] % len(sizes)]))] if rest else rest
        self.i += len(rest)
        return rest


class Writer:
    """A caller supplied object with a write() method only."""

    def __init__(self, hooks):
        self.hooks, self.parts, self.closed = hooks, [], False

    def write(self, s):
        self.hooks.hit('write')
        self.parts.append(s)
        return len(s)

    def close(self):
        self.closed = True


# --- the world ----------------------------------------------------------------------------------
class Files:
    def __init__(self, case, res):
        self.case, self.res = case, res
        self.asking = case.get('prop') in ('P01', 'P02', 'P10')

    def run_jobs(self):
        for j in self.case['jobs']:
            self.do_job(j)

    def do_job(self, job, nested=False, patch=True):
        res = self.res
        kind = job['kind']
        prop = PROP_OF[kind]
        where = kind + (':retry' if job.get('retry') else '') + ('' if not nested else ':nested')
        before = len(res.violations)
        self.int = None if nested else job.get('int')
        disk = Disk(job.get('disk'), res)
        hooks = Hooks(self, job)
        res.steps += 1
        # disks nest: an inner job sees only its own files, then the outer one is back
        import builtins
        saved = builtins.open, io.open
        if patch:
            with disk:
                try:
                    getattr(self, 'do_' + kind)(job, disk, hooks, prop, where)
                finally:
                    leaked = disk.leaked()
            builtins.open, io.open = saved
        else:       # no files involved (and other jobs may be under way in other threads)
            leaked = None
            getattr(self, 'do_' + kind)(job, disk, hooks, prop, where)
        res.checks += 1
        if leaked and 'int' not in job:     # (between opening a file and guarding it)
            res.bad('P22', '%s left %s open (faults: %s)' % (kind, leaked, disk.fired or hooks.raised), where)
        res.state(kind, job.get('via'), tuple(sorted({(k, op) for _, k, op in disk.fired})), type(hooks.raised).__name__,
                  min(disk.n, 30), nested, bool(job.get('retry')), self.last_outcome)
        res.trace.append((where, tuple(disk.log[:50]), self.last_outcome))
        if job.get('retry'):
            for v in res.violations[before:]:
                if v.prop == prop:
                    res.bad('P10', 'a retry after a failed attempt: ' + v.msg, where)
                    res.bad('P22', 'a retry after a failed attempt: ' + v.msg, where)
                    break
            # an attempt that follows a failure must behave as a first attempt
        self.last = None

    last_outcome = None

    # -- generic pieces
    def call(self, f, disk, hooks, prop, where, must_fail=(), wrap_ok=False, may_fail=()):
        """Run f; returns (ok, value). Judges errors that were injected."""
        res = self.res
        exc = val = it = None
        try:
            if self.int:
                it = Interrupter(*self.int)
                with it:
                    val = f()
            else:
                val = f()
        except BaseException as e:      # noqa
            if type(e).__name__ == 'Hang':
                raise
            exc = e
        if it is not None and it.fired:
            res.fault('interrupt:' + self.int[1])
            self.last_outcome = 'interrupted'
            if not isinstance(exc, EXCS[self.int[1]]):
                res.bad('P10', '%s interrupted at %s did not pass on the interrupt but gave %r' % (where, it.where, exc or val), where)
            return False, None
        hard = [x for x in disk.fired if x[1] in ('eio', 'enospc', 'torn', 'interrupt', 'close', 'full')]
        self.last_outcome = type(exc).__name__
        res.checks += 1
        injected = hooks.raised is not None or hard
        if injected:
            if exc is None:
                what = hooks.raised or hard
                if hooks.raised is None and all(x[2] == 'close' for x in hard) and not must_fail:
                    return True, val        # a failing close after a complete read
                res.bad(prop, 'reported success (%s) although %r happened' % (short(val), what), where)
                return False, None
            want = (type(hooks.raised),) if hooks.raised is not None else (SimOSError, SimInterrupt)
            e, ok = exc, False
            seen = 0
            while e is not None and seen < 10:
                if isinstance(e, want):
                    ok = True
                e = e.__cause__ or e.__context__
                seen += 1
            if not ok and not wrap_ok:
                res.bad(prop, 'the injected %r surfaced as %r' % (hooks.raised or hard, exc), where)
            return False, None
        if exc is not None:
            if isinstance(exc, tuple(must_fail) + tuple(may_fail)):
                return False, exc
            res.bad(prop, 'raised %s: %s' % (type(exc).__name__, str(exc)[:200]), where)
            return False, None
        return True, val

    def source(self, job, disk, hooks, text, nlpath=None, binary=False):
        """Deliver text according to job['via']; returns (argument, closer-check)."""
        via = job['via']
        data = text.encode('utf-8')
        if via == 'path':
            disk.files['/sim/in'] = bytearray(data)
            return '/sim/in', None
        if via == 'file':
            disk.files['/sim/in'] = bytearray(data)
            keep, disk.faults = disk.faults, {}         # opening is the caller's business
            f, raw = disk.caller_file('/sim/in', newline='' if not job.get('translate') else None)
            disk.faults = keep
            return f, lambda: f.closed or raw.released
        if via == 'stringio':
            f = io.StringIO(text, newline='')
            return f, lambda: f.closed
        f = (ByteSource if binary else LineSource)(text, hooks)
        return f, lambda: f.closed

    def check_value(self, val, exp, prop, where, what):
        res = self.res
        res.checks += 1
        try:
            got = to_model(val)
        except Bad as e:
            res.bad(prop, '%s: malformed result: %s' % (what, e), where)
            return False
        if got != exp:
            res.bad(prop, '%s gave %s, expected %s' % (what, show(got)[:500], show(exp)[:500]), where)
            return False
        audit_flags(res, [val], where)
        if self.asking and len(m.elems(exp)) < 40:
            ask_all(res, exp, [val], 'asked after the import', where)
            audit_flags(res, [val], where)
        return True

    asking = False
    int = None      # [line, kind]: interrupt the call there

    def not_closed(self, closed, kind, where):
        if closed is not None and closed():
            self.res.bad('P22', '%s closed the file object supplied by the caller' % kind, where)

    # -- imports
    def do_csv_in(self, job, disk, hooks, prop, where):
        from algebraixlib.import_export.csv import import_csv
        L = lib()
        text = csv_text(job)
        src, closed = self.source(job, disk, hooks, text)
        types = {}
        for c, t in (job.get('types') or {}).items():
            types[c] = (lambda t: lambda s: (hooks.hit('conv'), CONV[t](s))[1])(t)
        kw = {}
        if types:
            kw['types'] = types
        if job.get('pre'):
            kw['skip_rows'] = len(job['pre'])
        if job.get('index'):
            kw['index_column'] = job['index']
        if job.get('dup'):
            kw['has_dup_rows'] = True
        if job.get('columns'):
            kw['columns'] = list(job['cols'])
        before = [repr(kw.get('columns')), list(types.items())]
        ok, val = self.call(lambda: import_csv(src, **kw), disk, hooks, prop, where)
        if before != [repr(kw.get('columns')), list(types.items())]:
            self.res.bad('P07', 'import_csv changed the columns or types it was given to %r, %r' % (kw.get('columns'), types), where)
        self.not_closed(closed, 'import_csv', where)
        if not ok:
            return
        exp = csv_model(job)
        if not self.check_value(val, exp, prop, where, 'importing %r' % text[:200]):
            return
        res = self.res
        res.checks += 2
        mod = L['multiclans'] if job.get('dup') else L['clans']
        want = m.prop('regular', exp)
        if val.cached_is_regular and want is not True or val.cached_is_not_regular and want is not False:
            res.bad(prop, 'importing %r remembers regular: %s, all rows have the same columns: %s'
                    % (text[:200], STATUS[val.cached_regular], want), where)
        got = mod.is_regular(val)
        if got is not want:
            res.bad(prop, 'importing %r is classified as regular: %r, expected %r' % (text[:200], got, want), where)

    def do_xml_in(self, job, disk, hooks, prop, where):
        from algebraixlib.import_export.xml import import_xml
        text = job.get('decl', '') + xml_text(job['doc'], job.get('style', 0)) + ('\n' if job.get('style', 0) >= 2 else '')
        self.doc_in(job, disk, hooks, prop, where, text, lambda s: import_xml(s, **({'convert_numerics': True} if job.get('num') else {})),
                    lambda: xml_model(job['doc'], job.get('num')))

    def do_json_in(self, job, disk, hooks, prop, where):
        from algebraixlib.import_export.json import import_json
        text = _json.dumps(job['doc'], ensure_ascii=job.get('style', 0) % 2 == 0, indent=job.get('style', 0) // 2 or None)
        self.doc_in(job, disk, hooks, prop, where, text, import_json, lambda: json_model(job['doc']))

    def doc_in(self, job, disk, hooks, prop, where, text, f, exp):
        cut = job.get('cut')
        must = ()
        if cut is not None:
            full = text.rstrip()
            text = full[:min(cut, len(full) - 1)]
            must = (Exception,)
            self.res.fault('truncated-input')
        src, closed = self.source(job, disk, hooks, text, binary=bool(job.get('bytes')))
        ok, val = self.call(lambda: f(src), disk, hooks, prop, where, must_fail=must)
        self.not_closed(closed, job['kind'], where)
        if not ok:
            return
        if cut is not None:
            self.res.bad(prop, 'importing the truncated document %r gave %s' % (text[:300], show(to_model(val))), where)
            return
        self.check_value(val, exp(), prop, where, 'importing %r' % text[:300])

    def do_xml_str(self, job, disk, hooks, prop, where):
        from algebraixlib.import_export.xml import xml_to_str
        text = xml_text(job['doc'], job.get('style', 0))
        cut = job.get('cut')
        must = ()
        if cut is not None:
            text = text[:min(cut, len(text) - 1)]
            must = (Exception,)
        src, closed = self.source(job, disk, hooks, text)
        ok, val = self.call(lambda: xml_to_str(src, truncate=False), disk, hooks, prop, where, must_fail=must)
        self.not_closed(closed, 'xml_to_str', where)
        if not ok or cut is not None:
            return
        # the text is the same document: read it back independently
        from xml.dom.minidom import parseString
        self.res.checks += 1
        if not isinstance(val, str):
            self.res.bad(prop, 'xml_to_str returned %r' % (val,), where)
            return
        try:
            dom = parseString(val.encode('utf-8'))
        except Exception as e:
            self.res.bad(prop, 'xml_to_str of %r is not well-formed: %s' % (text[:200], e), where)
            return
        want = dom_norm(parseString(text.encode('utf-8')).documentElement)
        if dom_norm(dom.documentElement) != want:
            self.res.bad(prop, 'xml_to_str of %r changed the document: %r' % (text[:200], val[:300]), where)

    def do_rdf_in(self, job, disk, hooks, prop, where):
        from . import w_rdf
        w_rdf.import_job(self, job, disk, hooks, prop, where)

    def do_table_out(self, job, disk, hooks, prop, where):
        from . import w_rdf
        w_rdf.export_job(self, job, disk, hooks, prop, where)

    # -- export
    def target(self, job, disk, hooks):
        via = job['via']
        old = 'old contents of the target, long enough to show through whatever is written over it, ' * 4
        if via == 'path':
            if job.get('exists', 1):
                disk.files['/sim/out'] = bytearray(old.encode())
            before = bytes(disk.files.get('/sim/out', b''))
            return '/sim/out', None, (lambda: bytes(disk.files['/sim/out']).decode('utf-8', 'replace')), \
                (lambda: '/sim/out' in disk.touched or bytes(disk.files.get('/sim/out', b'')) != before)
        if via == 'file':
            disk.files['/sim/out'] = bytearray()
            keep, disk.faults = disk.faults, {}
            f, raw = disk.caller_file('/sim/out', 'w', newline='')
            disk.faults = keep

            def get():
                f.flush()
                return bytes(disk.files['/sim/out']).decode('utf-8', 'replace')
            return f, (lambda: f.closed or raw.released), get, lambda: get() != ''
        if via == 'stringio':
            f = io.StringIO(newline='')
            return f, (lambda: f.closed), f.getvalue, lambda: f.getvalue() != ''
        f = Writer(hooks)
        return f, (lambda: f.closed), (lambda: ''.join(f.parts)), lambda: bool(f.parts)

    def do_csv_out(self, job, disk, hooks, prop, where):
        from algebraixlib.import_export.csv import export_csv, import_csv
        res = self.res
        obj = build(job['e'], job.get('route', 0))
        mv = to_m(job['e'])
        tgt, closed, get, touched = self.target(job, disk, hooks)
        kw = {}
        if job.get('order') is not None:
            kw['ordered_lefts'] = [val_dec(x) for x in job['order']]
        if job.get('sort'):
            left = build(job['sort'])
            lm = to_m(job['sort'])

            def key(rel):
                hooks.hit('key')
                return sorted(repr(c.right.value) for c in rel if c.left == left)
            kw['sort_key'] = key
        may = ()
        if 'ordered_lefts' not in kw:
            try:
                sorted(l[2] for l in m.left_set(mv))
            except Exception:
                may = (TypeError,)      # the columns have no lexical order
        ok, val = self.call(lambda: export_csv(obj, tgt, **kw), disk, hooks, prop, where, may_fail=may)
        self.not_closed(closed, 'export_csv', where)
        res.checks += 2
        unchanged(res, prop, obj, mv, 'export_csv', where)
        if 'ordered_lefts' in kw and repr(kw['ordered_lefts']) != repr([val_dec(x) for x in job['order']]):
            res.bad('P07', 'export_csv changed the list of columns it was given to %r' % kw['ordered_lefts'], where)
        audit_flags(res, [obj], where)
        if not ok:
            return
        table = (m.is_clan(mv) or m.is_mclan(mv)) and m.absolute(mv)
        rows = sorted(m.elems(mv), key=show) if table else []
        cols = kw.get('ordered_lefts')
        if not table or cols is None and (m.prop('regular', mv) is not True or not mv[1]):
            if val is not False:
                res.bad(prop, 'exporting %s, which cannot be exported, returned %r' % (show(mv), val), where)
            elif touched():
                res.bad(prop, 'refusing to export %s wrote to the target' % show(mv), where)
            return
        if val is not True:
            res.bad(prop, 'exporting %s returned %r' % (show(mv), val), where)
            return
        if cols is None:
            cols = sorted(l[2] for l in m.left_set(mv))
        if not cols:
            return
        out = get()
        got = list(_csv.reader(io.StringIO(out, newline='')))
        n = dict(mv[1]) if mv[0] == 'm' else {}
        want = []
        loose = False
        for r in rows:
            line = []
            for c in cols:
                rt = [x[2][2] for x in r[1] if x[1] == m.A(c)]
                if len(rt) > 1:
                    loose = True        # several values in one cell: not specified here
                line.append('' if len(rt) != 1 else csv_cell(rt[0]))
            want += [line] * n.get(r, 1)
        res.checks += 1
        if not got or got[0] != [csv_cell(c) for c in cols]:
            res.bad(prop, 'exporting %s wrote the header %r, expected %r' % (show(mv), got[:1], cols), where)
            return
        if loose:
            if len(got) - 1 != len(want):
                res.bad(prop, 'exporting %s wrote %d rows, expected %d' % (show(mv), len(got) - 1, len(want)), where)
            return
        if sorted(got[1:]) != sorted(want):
            res.bad(prop, 'exporting %s with columns %r wrote %r, expected %r' % (show(mv), cols, got[1:], sorted(want)), where)
            return
        if job.get('sort'):
            # rows in the order of their keys
            bykey = {}
            for r in rows:
                k = tuple(sorted(repr(x[2][2]) for x in r[1] if x[1] == lm))
                line = [([csv_cell(x[2][2]) for x in r[1] if x[1] == m.A(c)] or [''])[0] for c in cols]
                bykey.setdefault(k, []).extend([line] * n.get(r, 1))
            i = 1
            for k in sorted(bykey):
                part = got[i:i + len(bykey[k])]
                i += len(bykey[k])
                if sorted(part) != sorted(bykey[k]):
                    res.bad(prop, 'exporting %s with a sort key wrote rows out of order: %r' % (show(mv), got[1:]), where)
                    return
        # importing it back gives the original data
        vals = [(x[1], x[2]) for r in rows for x in r[1]]
        if rows and all(l[1] == 'str' and r[1] == 'str' and r[2] != '' for l, r in vals) and {l[2] for l, _ in vals} <= set(cols) \
                and all(isinstance(c, str) and c for c in cols):
            res.checks += 1
            try:
                if job['via'] == 'path':
                    disk.faults = {}
                    back = import_csv('/sim/out', has_dup_rows=mv[0] == 'm')
                else:
                    back = import_csv(io.StringIO(out, newline=''), has_dup_rows=mv[0] == 'm')
                got = to_model(back)
            except Exception as e:
                res.bad(prop, 'importing the export of %s raised %r' % (show(mv), e), where)
                return
            if got != mv:
                res.bad(prop, 'exporting and importing %s gave %s' % (show(mv), show(got)), where)


def csv_cell(v):
    return '' if v is None else str(v)


def short(v):
    try:
        return show(to_model(v))[:200]
    except Exception:
        return repr(v)[:200]


def dom_norm(node):
    """Element as nested tuples, text whitespace-normalised."""
    kids, text = [], ''
    for c in node.childNodes:
        if c.nodeType == c.ELEMENT_NODE:
            if text.strip():
                kids.append(' '.join(text.split()))
            text = ''
            kids.append(dom_norm(c))
        elif c.nodeType in (c.TEXT_NODE, c.CDATA_SECTION_NODE):
            text += c.data
    if text.strip():
        kids.append(' '.join(text.split()))
    return (node.tagName, tuple(sorted((k, ' '.join(v.split())) for k, v in node.attributes.items())), tuple(kids))


def run(case):
    res = Result()
    reset_level()
    gc.disable()
    try:
        Files(case, res).run_jobs()
    finally:
        gc.enable()
        reset_level()
    return res


# --- generation ---------------------------------------------------------------------------------
CELLS = ['1', '2', 'a', 'b', 'x y', 'é', '"q"', 'a,b', 'l1\nl2', 'l1\r\nl2', ' pad ', '0', '-3', '1.5', 'ÄÖ€😀', "it's", 'r\rr', '\u2028', 'a\u0085b', 'x\x0by']
NUMS = ['1', '2', '7', '-3', '10', '+4', '007', ' 5', '123456789012345678901', '0']
BIG = [25, 60, 130, 300, 700]


def gen_disk(rng, rate, write=False):
    d = dict(buf=rng.choice([1, 3, 8, 16, 64, 8192]))
    if rng.random() < .6:
        d['chunk'] = [rng.choice([1, 2, 3, 5, 7, 0]) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < .4:
        d['enc'] = rng.choice(['utf-8', 'latin-1', 'cp1252', 'ascii'])
    if rng.random() < rate:
        kinds = ['eio', 'interrupt', 'eio', 'intr', 'close'] + (['enospc', 'full', 'torn'] if write else [])
        d['faults'] = sorted([rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 13, 17, 22]), rng.choice(kinds)] for _ in range(rng.choice([1, 1, 1, 2])))
        seen = set()
        d['faults'] = [f for f in d['faults'] if not (f[0] in seen or seen.add(f[0]))]
    return d


def spread(rng, d):
    """Faults anywhere in a long file, which is read in pieces large enough to finish."""
    d['buf'] = max(d['buf'], 64)
    d.pop('chunk', None)
    if rng.random() < .5:
        d['chunk'] = [rng.choice([17, 64, 500])]
    if d.get('faults'):
        d['faults'] = [[rng.randrange(1, rng.choice([20, 60, 200])), k] for _, k in d['faults']][:1]


def gen_csv_in(rng, rate, via=None, depth=0):
    nc = rng.choice([1, 2, 2, 3, 3])
    cols = rng.sample(['a', 'b', 'c', 'd e', 'né', 'x,y', '1'], nc)
    nr = rng.choice([0, 1, 2, 2, 3, 3, 4, 6])
    blankcol = rng.choice([None, None, 0, nc - 1])      # a column that is empty throughout
    big = 0 if depth or rng.random() > .03 else rng.choice(BIG)
    nr = big or nr
    p = rng.choice([0, 0, .1, .3, .6])
    types = {}
    for c in cols:
        if rng.random() < .3:
            types[c] = rng.choice(['int', 'float', 'upper', 'len', 'wrap', 'bool', 'str', 'const', 'strip'])
    pool = {c: rng.sample(CELLS, rng.choice([1, 2, 3])) for c in cols}
    if big:
        pool[cols[0]] = ['v%d' % i for i in range(nr)]
    rows = []
    for _ in range(nr):
        r = []
        for i, c in enumerate(cols):
            if rng.random() < p or i == blankcol and p:
                r.append(rng.choice([None, '']))
            elif types.get(c) in ('int', 'float'):
                r.append(rng.choice(NUMS))
            else:
                r.append(rng.choice(pool[c]))
        rows.append(r)
        if big and rng.random() < .05:
            rows += [list(r)] * rng.choice([1, 5, 70])
        elif rng.random() < .25:
            rows.append(list(r))
    if big and types.get(cols[-1]) not in ('int', 'float'):
        rng.choice(rows)[-1] = 'long text, ' * rng.choice([1, 30, 900])
    style = dict(eol=rng.choice(['\n', '\n', '\r\n']), quote=rng.choice([0, 0, 1, 2]))
    if rng.random() < .3:
        style['ragged'] = 1
    if rng.random() < .3:
        style['nofinal'] = 1
    job = dict(kind='csv_in', cols=cols, rows=rows, style=style, via=via or rng.choice(['path', 'path', 'file', 'stringio', 'obj']))
    if types:
        job['types'] = types
    if nc > 1 and rng.random() < .25:
        job['columns'] = 1
    x = rng.random()
    if x < .2:
        job['index'] = 'idx'
    elif x < .5:
        job['dup'] = 1
    if rng.random() < .2:
        job['pre'] = [rng.choice(['# pre', 'x,y', '', '"']) for _ in range(rng.choice([1, 2]))]
    if job['via'] in ('path', 'file'):
        job['disk'] = gen_disk(rng, rate)
        if big:
            spread(rng, job['disk'])
    faulty = rng.random() < rate
    if faulty and types and rng.random() < .6:
        job['fail'] = [['conv', rng.randrange(1, nr) if big else rng.choice([1, 1, 2, 3]), rng.choice(['error', 'error', 'interrupt', 'memory'])]]
    elif faulty and job['via'] == 'obj':
        job['fail'] = [['line', rng.randrange(1, nr) if big else rng.choice([1, 2, 3, 4]), rng.choice(['oserror', 'error', 'interrupt'])]]
    if depth < 2 and rng.random() < .3:
        pts = []
        if types:
            pts.append('conv')
        if job['via'] == 'obj':
            pts.append('line')
        if pts:
            job['nested'] = [dict(at=[rng.choice(pts), rng.choice([1, 2, 2, 3])], job=gen_any_in(rng, rate * .5, depth + 1))
                             for _ in range(rng.choice([1, 1, 2]))]
    return job


TAGS = ['a', 'b', 'c', 'item', 'né']
TEXTS = ['x', 'y', '1', '2', '1.5', '-7', 'a & b', '<', '"', 'é', 'two words', '1e3', '0', 'x', '+1', '00', '-0', '.5', '5.', 'inf', '1_0',
         '123456789012345678901', '9007199254740993', '1.0', '0x1F', 'True', ']]>', "it's", '1e400', '-1e-3', '$']


def gen_xml(rng, depth=0, big=0):
    kids = []
    if depth < 3:
        n = big or rng.choice([0, 1, 1, 2, 3] if depth else [1, 1, 2, 3])
        for _ in range(n):
            if rng.random() < .45:
                kids.append(['t', rng.choice(TEXTS)])
            else:
                kids.append(gen_xml(rng, depth + 1))
        if kids and rng.random() < .1:
            kids.append(['t', ' '])
    attrs = [[k, rng.choice(TEXTS)] for k in rng.sample(TAGS + ['id'], rng.choice([0, 0, 0, 1, 2]))]
    if big:
        for i, k in enumerate(kids):
            if k[0] == 'e' and rng.random() < .8:
                k[2] = [['id', str(i)]] + [a for a in k[2] if a[0] != 'id']
        for _ in range(rng.choice([0, 5, 40])):
            kids[0] = ['e', rng.choice(TAGS), [], [kids[0]]]
    return ['e', rng.choice(TAGS), attrs, kids]


SCALARS = ['x', 'y', 1, 2, 0, 1.5, True, False, '', 'é', -7, '1', 1.0, 2 ** 53 + 1, -2 ** 70, 1e300, .1, 1e-7, -0.5, 'null', ' x ', '$', '\n', '\u2028',
           '"\\', '\U0001f600']


def gen_json(rng, depth=0):
    """An object; values are scalars, objects or lists of objects and lists."""
    d = {}
    for k in rng.sample(['a', 'b', 'c', 'é', '', 'x y'], rng.choice([0, 1, 1, 2, 2, 3] if depth else [1, 1, 2, 3])):
        x = rng.random()
        if depth > 2 or x < .5:
            d[k] = rng.choice(SCALARS)
        elif x < .75:
            d[k] = gen_jlist(rng, depth + 1)
        else:
            d[k] = gen_json(rng, depth + 1)
    return d


def gen_big_json(rng):
    n = rng.choice(BIG)
    d = {'rows': [dict(gen_json(rng, 3), id=i) for i in range(n)]}
    for i in range(rng.choice([0, 3, 60])):
        d['k%d' % i] = rng.choice(SCALARS)
    for _ in range(rng.choice([0, 5, 40])):
        d = {rng.choice('abc'): d if rng.random() < .7 else [d]}
    return d


def gen_jlist(rng, depth):
    out = []
    for _ in range(rng.choice([0, 1, 2, 2, 3])):
        if depth < 4 and rng.random() < .2:
            out.append(gen_jlist(rng, depth + 1))
        else:
            out.append(gen_json(rng, depth + 1))
    if out and rng.random() < .2:
        out.append(out[0])
    return out


def gen_doc_in(rng, rate, depth=0):
    kind = rng.choice(['xml_in', 'xml_in', 'json_in', 'json_in', 'xml_str'])
    job = dict(kind=kind, via=rng.choice(['path', 'path', 'file', 'stringio', 'obj']), style=rng.randrange(4))
    big = depth == 0 and rng.random() < .03
    if kind == 'json_in':
        job['doc'] = gen_big_json(rng) if big else gen_json(rng) if rng.random() < .8 else gen_jlist(rng, 1)
    else:
        job['doc'] = gen_xml(rng, 0, rng.choice(BIG) if big else 0)
        if kind == 'xml_in' and rng.random() < .4:
            job['num'] = 1
        if kind == 'xml_in' and rng.random() < .2:
            job['decl'] = '<?xml version="1.0" encoding="utf-8"?>' + rng.choice(['', '\n'])
    if job['via'] == 'obj':
        job['pieces'] = [rng.choice([1, 2, 3, 5, 17, 400]) for _ in range(rng.choice([1, 2]))]
        if kind == 'xml_in' and rng.random() < .4:
            job['bytes'] = 1
        if rng.random() < rate:
            job['fail'] = [['read', rng.choice([1, 1, 2, 3, 5]), rng.choice(['oserror', 'error', 'interrupt'])]]
        elif depth < 2 and rng.random() < .3:
            job['nested'] = [dict(at=['read', rng.choice([1, 2, 3])], job=gen_any_in(rng, rate * .5, depth + 1))]
    if rng.random() < rate * .4:
        job['cut'] = rng.choice([0, 1, 3, 7, 12, 20, 40, 80, 1000])
    if job['via'] in ('path', 'file'):
        job['disk'] = gen_disk(rng, rate)
        if big:
            spread(rng, job['disk'])
    if big and 'pieces' in job:
        job['pieces'] = [rng.choice([17, 400, 5000])]
    return job


def gen_any_in(rng, rate, depth=0):
    return gen_csv_in(rng, rate, depth=depth) if rng.random() < .6 else gen_doc_in(rng, rate, depth)


def gen_csv_out(rng, rate):
    from . import gen
    x = rng.random()
    S = lambda b: ['S', b]
    texts = rng.sample(CELLS, rng.choice([2, 3, 4]))
    mode = rng.random()
    names = rng.sample(['a', 'b', 'c', 'd e', 'né', 'x,y', '"q"', '1'], rng.choice([1, 2, 2, 3]))
    vals = lambda: ['A', rng.choice(texts)] if mode < .7 else ['A', rng.choice(texts + [1, 2, 1.5, True, ''])]
    big = 0 if rng.random() > .03 else rng.choice(BIG)
    if x < .8 or big:
        same = rng.random() < .7
        rels = []
        for i in range(big or rng.choice([0, 1, 2, 2, 3, 4, 6])):
            ls = names if same else rng.sample(names, rng.randrange(len(names) + 1))
            rels.append(S([['C', ['A', l], ['A', 'v%d' % i] if big and l == names[0] else vals()] for l in ls]))
        if big and rng.random() < .3:
            rels[-1] = S([['C', ['A', l], ['A', 'long "text" ' * rng.choice([30, 900])]] for l in names])
        if rng.random() < .07 and rels:
            rels.append(S([['C', ['A', names[0]], ['A', 'u']], ['C', ['A', names[0]], ['A', 'v']]]))
        rels = gen.dedupe(rels)
    else:
        d = gen.Dom(rng, rng.choice([0, 1, 3]))
        e = gen.gen(rng, d, rng.choice(['clan', 'mclan', 'rel', 'mset', 'mixed', 'atom']))
        rels = None
    if rels is None:
        pass
    elif rng.random() < .5:
        e = ['M', [[r, rng.choice([1, 1, 2, 3] if not big else [1, 1, 2, 30])] for r in rels]]
    else:
        e = S(rels)
    job = dict(kind='csv_out', e=e, route=rng.randrange(5), via=rng.choice(['path', 'path', 'path', 'file', 'stringio', 'obj']))
    if rng.random() < (.4 if rels is not None else .15):
        o = list(names)
        rng.shuffle(o)
        if rng.random() < .3 and len(o) > 1:
            o.pop()
        elif rng.random() < .2:
            o.append('zz')
        job['order'] = o
    if rng.random() < .3:
        job['sort'] = ['A', names[0]]
    if rng.random() < .3:
        job['exists'] = 0
    if job['via'] in ('path', 'file'):
        job['disk'] = gen_disk(rng, rate if job['via'] == 'path' else 0, True)
        if big:
            spread(rng, job['disk'])
    if rng.random() < rate:
        if job['via'] == 'obj':
            job['fail'] = [['write', rng.choice([1, 2, 3]), rng.choice(['oserror', 'error', 'interrupt'])]]
        elif job.get('sort'):
            job['fail'] = [['key', rng.choice([1, 2]), rng.choice(['error', 'interrupt'])]]
    return job


GENS = dict(csv_in=gen_csv_in, csv_out=gen_csv_out, doc_in=gen_doc_in)


def case(rng, kinds, rate=.35, ints=0):
    jobs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(kinds)
        if k in ('rdf_in', 'table_out'):
            from . import w_rdf
            j = getattr(w_rdf, 'gen_' + k)(rng, rate)
        else:
            j = GENS[k](rng, rate)
        jobs.append(j)
        if ints and 'nested' not in j and not j.get('disk', {}).get('faults') and not j.get('fail') and rng.random() < ints:
            j['int'] = [rng.choice([rng.randrange(1, 8), rng.randrange(1, 40), rng.randrange(1, 200)]), rng.choice(['interrupt', 'memory', 'interrupt', 'recursion'])]
        if j.get('fail') or j.get('int') or j.get('disk', {}).get('faults') or j.get('cut') is not None or rng.random() < .1:
            r = {k: v for k, v in json_copy(j).items() if k not in ('fail', 'nested', 'cut', 'int')}
            if 'disk' in r:
                r['disk'].pop('faults', None)
            r['retry'] = 1
            jobs.append(r)
    return dict(world='files', jobs=jobs)


def json_copy(x):
    return _json.loads(_json.dumps(x))
