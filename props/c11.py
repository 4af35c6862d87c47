"""C11: exit status and text report."""
import copy
import io
import json
import os
import random
import shutil
import tempfile
import xml.etree.ElementTree as ET

from contracts import core, msggen, relcheck
from contracts import c11_contracts     # noqa: registers the contracts

SEVERITY = {'error': 2, 'comment': 1, 'debug': 0}


# ---- independent rendering of the report

class Oracle:
    def __init__(self, notices_xml):
        self.notices = {}
        for e in ET.fromstring(notices_xml):
            if e.tag in SEVERITY:
                self.notices[int(e.get('id'))] = (e.tag, e.find('title'))
        self.names = {}

    def header_name(self, name):
        return CANONICAL.get(str(name).lower(), str(name))

    def value(self, v):
        from httpolice.header import HeaderView
        from httpolice.parse import Symbol
        from httpolice.structure import HeaderEntry, Parametrized
        if isinstance(v, (HeaderEntry, HeaderView)):
            return self.header_name(v.name)
        if isinstance(v, Symbol):
            return '%s (%s)' % (v.name, v.citation) if v.citation else str(v.name)
        if isinstance(v, Parametrized):
            return self.value(v.item)
        if isinstance(v, list):
            return ''.join(self.value(x) for x in v)
        if isinstance(v, int) and not isinstance(v, bool) and type(v).__name__ != "Severity":
            return "%d" % v
        return str(v)

    def title(self, nid, context):
        def content(e):
            parts = []
            if e.text:
                parts.append(e.text)
            for k in e:
                if k.tag == 'var':
                    path = k.get('ref').split('.')
                    v = context[path[0]]
                    for a in path[1:]:
                        v = getattr(v, a)
                    parts.append(('', self.value(v)))
                else:
                    parts.append(('', content(k)))
                if k.tail:
                    parts.append(k.tail)
            if parts and isinstance(parts[0], str):
                parts[0] = parts[0].lstrip()
            if parts and isinstance(parts[-1], str):
                parts[-1] = parts[-1].rstrip()
            return ''.join(p if isinstance(p, str) else p[1] for p in parts)
        return plain(clean(content(self.notices[nid][1])).strip())

    def line(self, c):
        return '%s %d %s\n' % (self.notices[c.id][0][0].upper(), c.id, self.title(c.id, c.context))

    def report(self, exchanges, reason):
        out = []
        for x in exchanges:
            body = []
            if x.request is not None:
                body += [self.line(c) for c in x.request.notices]
            for r in x.responses:
                lines = [self.line(c) for c in r.notices]
                if lines:
                    body.append(cut('------------ response: %d %s' % (r.status, clean(reason(r))), 60) + '\n')
                    body += lines
            body += [self.line(c) for c in x.notices]
            if body:
                if x.request is not None:
                    head = '------------ request: %s %s' % (clean(x.request.method), clean(x.request.target))
                elif x.responses:
                    head = '------------ unknown request'
                else:
                    head = '------------'
                out += [cut(head, 79) + '\n'] + body
        return ''.join(out)


def cut(s, n):
    return s if len(s) <= n else s[:n - 3] + '...'


def clean(s):
    def bad(c):
        o = ord(c)
        return (o < 32 and o not in (9, 10, 13)) or 0x7f <= o <= 0x9f or 0xd800 <= o <= 0xdfff or 0xfdd0 <= o <= 0xfdef or o in (0xfffe, 0xffff)
    return ''.join('\ufffd' if bad(c) else c for c in s)


PLAIN = {'\u201c': '"', '\u201d': '"', '\u2018': "'", '\u2019': "'", '\u2014': '--', '\u2013': '-', '\u2212': '-', '\xa0': ' '}


def plain(s):
    return ''.join(PLAIN.get(c, c) for c in s)


def reason(resp):
    from httpolice import known
    if resp.reason:
        return str(resp.reason)
    return STATUS.get(int(resp.status)) or '(unknown)'


STATUS = {}


def table(name):
    import csv
    import httpolice.known
    with io.open(os.path.join(os.path.dirname(httpolice.known.__file__), name + '.csv'), encoding='utf-8', newline='') as f:
        return list(csv.DictReader(f))


def oracle():
    import pkgutil
    if not STATUS:
        for row in table('status_code'):
            STATUS[int(row['key'])] = row['title']
        for row in table('header'):
            CANONICAL[row['key'].lower()] = row['key']
    return Oracle(pkgutil.get_data('httpolice', 'notices.xml'))


CANONICAL = {}


def reports(job):
    """Random exchanges, several in one report, some silenced: report bytes."""
    seed, corpus, n = job
    from httpolice.exchange import check_exchange, complaint_box
    from httpolice.stream import Stream
    from httpolice.reports import text_report
    from httpolice.reports import html_report
    o = oracle()
    rng = random.Random(seed)
    g = msggen.Gen(seed)
    count = 0
    for i in range(n):
        group, dicts = [], []
        for _ in range(rng.choice([1, 1, 2, 3])):
            d = rng.choice(corpus)
            if rng.random() < 0.6:
                d = g.mutate(d)
            d = copy.deepcopy(d)
            twist(rng, d)
            try:
                x = msggen.build(d)
            except Exception:
                continue
            dicts.append(d)
            group.append(x)
        if rng.random() < 0.1:
            group.append(complaint_box(rng.choice([1007, 1008, 1010]), stream=Stream(io.BytesIO(b''), name='x'), offset=3))
            dicts.append('box')
        silenced = rng.sample([1110, 1111, 1057, 1061, 1070, 1038, 1013, 1108, 1045, 1302], rng.choice([0, 0, 2, 5]))
        bad = None
        try:
            for x, d in zip(group, dicts):
                if d != 'box':
                    x.silence(silenced)
                    check_exchange(x)
        except Exception:
            continue        # C18
        try:
            want = o.report(group, reason)
        except KeyError:
            continue
        count += 1
        core.tick()
        buf = io.BytesIO()
        try:
            text_report(iter(group), buf)
            got = buf.getvalue().decode('utf-8')
        except Exception as e:
            got = 'exception %r' % e
        if got != want:
            return count, {'exchanges': dicts, 'silenced': silenced, 'expected': want[:3000], 'observed': got[:3000]}
        if i % 20 == 0:
            buf = io.BytesIO()
            try:
                html_report(iter(group), buf)
                buf.getvalue().decode('utf-8')
            except Exception as e:
                return count, {'exchanges': dicts, 'silenced': silenced, 'expected': 'an HTML report', 'observed': 'exception %r' % e}
    return count, None


def twist(rng, d):
    """Things the report shows: long targets and reasons, odd characters, repeated responses."""
    if d['request'] and rng.random() < 0.15:
        d['request']['target'] = rng.choice(['/' + 'x' * rng.choice([40, 53, 54, 55, 56, 57, 58, 60, 100]), '/caf\xe9', '/a\x01b', '/\u2014', '*'])
    if d['request'] and rng.random() < 0.05:
        d['request']['method'] = rng.choice(['G\x00T', 'get', '\u201cGET\u201d', 'M' * 90])
    for r in d['responses']:
        if rng.random() < 0.15:
            r['reason'] = rng.choice(['y' * rng.choice([30, 33, 34, 35, 36, 37, 38, 40, 50, 90]), '', None, 'caf\xe9 \u2014', 'a\x7fb', 'OK'])
        if rng.random() < 0.1:
            r['status'] = rng.choice([100, 299, 599, 418, 799, 200, 304])
    if d['responses'] and rng.random() < 0.2:
        d['responses'].append(copy.deepcopy(rng.choice(d['responses'])))


# ---- command line

def stream(rng):
    hs = [b'Host: example.com', b'Date: Thu, 13 Nov 2014 10:00:00 GMT', b'User-Agent: demo', b'User-Agent: demo/1.0', b'If-Match: "foo"',
          b'Content-Length: 0', b'Accept: ???', b'Cache-Control: no-cache', b'Expect: 100-continue', b'HTTPolice-Silence: 1070',
          b'X-Foo: bar', b'Server: x', b'Connection: close', b'Upgrade: x', b'Accept: */*, */*', b'If-None-Match: foo', b'Pragma: no-cache',
          b'Strict-Transport-Security: max-age=1', b'Location: /', b'Accept-Ranges: bytes']
    reqs, resps = [], []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        reqs.append(b'\r\n'.join([b'%s / HTTP/1.%d' % (rng.choice([b'GET', b'GET', b'HEAD', b'OPTIONS']), rng.choice([0, 1, 1]))] +
                                 rng.sample(hs, rng.choice([0, 1, 2, 4])) + [b'', b'']))
        resps.append(b'\r\n'.join([b'HTTP/1.1 %d %s' % rng.choice([(200, b'OK'), (204, b'No Content'), (304, b'Not Modified'), (404, b'Not Found')])] +
                                  rng.sample(hs, rng.choice([0, 1, 2, 4])) + [b'Content-Length: 0', b'', b'']))
    if rng.random() < 0.1:
        reqs.append(b'garbage')
    if rng.random() < 0.1:
        resps.append(rng.choice([b'garbage', resps[0] if resps else b'HTTP/1.1 200 OK\r\n\r\n']))
    if rng.random() < 0.05:
        del (reqs if rng.random() < 0.5 else resps)[:]
    if rng.random() < 0.05:
        resps, reqs = reqs, resps
    return b''.join(reqs), b''.join(resps)


def cli_runs(job):
    seed, n = job
    from httpolice import cli, inputs
    from httpolice.exchange import check_exchange
    from httpolice.util.text import MockStdio
    o = oracle()
    rng = random.Random(seed)
    scratch = tempfile.mkdtemp(prefix='c11')
    count = 0
    try:
        for i in range(n):
            paths, texts = [], []
            for k in range(rng.choice([1, 1, 2])):
                a, b = stream(rng)
                p = os.path.join(scratch, 'f%d_%d' % (i, k))
                text = b'======== BEGIN INBOUND STREAM ========\r\n' + a + b'======== BEGIN OUTBOUND STREAM ========\r\n' + b
                if rng.random() < 0.05:
                    text = text[20:]
                with open(p, 'wb') as f:
                    f.write(text)
                texts.append(text.decode('latin-1'))
                paths.append(p)
            if rng.random() < 0.05:
                paths.append(os.path.join(scratch, 'missing'))
            silenced = rng.choice([None, None, [], [1110], [1111, 1057], [1070, 1110, 1000, 1108], [1006, 1007], [1008], [1007, 1010], [1006, 1008, 1009, 1010, 1279]])
            fail_on = rng.choice([None, 'error', 'comment', 'debug'])
            out = rng.choice(['text'] * 6 + ['html'])
            argv = ['httpolice', '-i', 'combined'] + (['-o', out] if out != 'text' or rng.random() < 0.5 else [])
            for s in silenced or []:
                argv += rng.choice([['-s', str(s)], ['--silence', str(s)]])
            if fail_on:
                argv += ['--fail-on', fail_on]
            argv += paths
            expected_status, text_want, seen = 0, None, []
            try:
                for x in inputs.formats['combined'](paths):
                    if silenced:
                        x.silence(silenced)
                    check_exchange(x)
                    seen.append(x)
                levels = [SEVERITY[o.notices[c.id][0]] for x in seen for obj in [x] + ([x.request] if x.request else []) + list(x.responses)
                          for c in obj.notices]
                if fail_on and any(l >= SEVERITY[fail_on] for l in levels):
                    expected_status = 1
                text_want = o.report(seen, reason)
            except (inputs.InputError, EnvironmentError):
                expected_status = 1
                text_want = o.report(seen, reason)
            except Exception as e:
                return count, {'arguments': argv, 'files': texts, 'observed': 'the analysis raises %r' % e}
            count += 1
            core.tick()
            so, se = MockStdio(), MockStdio()
            try:
                status = cli.run_cli(cli.parse_args(argv), so, se)
                got = so.buffer.getvalue().decode('utf-8')
            except BaseException as e:
                status, got = 'exception %r' % e, ''
            for p in paths:
                if os.path.exists(p):
                    os.unlink(p)
            if status != expected_status or (out == 'text' and got != text_want):
                return count, {'arguments': argv, 'files': texts, 'expected status': expected_status, 'status': status,
                               'expected report': text_want, 'report': got[:3000]}
    finally:
        shutil.rmtree(scratch)
    return count, None


def arguments():
    from httpolice import cli, inputs
    import contextlib
    n = 0
    cases = []
    for f in inputs.formats:
        cases.append((['-i', f, 'p'], dict(input=f, output='text', silence=None, fail_on=None, full_traceback=False, path=['p'])))
    cases += [(['--input', 'har', '-o', 'html', 'p', 'q'], dict(input='har', output='html', path=['p', 'q'])),
              (['-i', 'har', '-s', '1000', '--silence', '1001', 'p'], dict(silence=[1000, 1001])),
              (['-i', 'har', '--fail-on', 'error', 'p'], dict(fail_on='error')),
              (['-i', 'har', '--fail-on', 'comment', 'p'], dict(fail_on='comment')),
              (['-i', 'har', '--fail-on', 'debug', 'p'], dict(fail_on='debug')),
              (['-i', 'har', '--full-traceback', 'p'], dict(full_traceback=True)),
              (['-i', 'har'], None), (['p'], None), (['-i', 'xyz', 'p'], None), (['-i', 'har', '-s', 'x', 'p'], None),
              (['-i', 'har', '--fail-on', 'warning', 'p'], None), (['-i', 'har', '-o', 'json', 'p'], None)]
    for argv, want in cases:
        n += 1
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                got = vars(cli.parse_args(['httpolice'] + argv))
        except SystemExit as e:
            got = None
            if e.code == 0:
                return n, {'arguments': argv, 'expected': want, 'observed': 'exit 0'}
        if (got is None) != (want is None) or (want and {k: got.get(k) for k in want} != want):
            return n, {'arguments': argv, 'expected': want, 'observed': str(got)}
    return n, None


def run(chk):
    chk.trusted = ['pyvc (engine and relational verifier, own code)', 'z3', 'contracts/c11_contracts.py (executable specifications)',
                   'argparse, codecs, io.StringIO, lxml']
    chk.assumptions += ['the text writer WriteIfAny is modelled as accumulated text (its __exit__ is under contract)',
                        'the visible notices of an object are those of C10',
                        'rendering of notice titles is compared with an independent renderer, not proved']
    chk.part('contracts', contracts, chk)
    chk.part('reports', bounded, chk)


def contracts(chk):
    relcheck.run(chk, relcheck.names_of('C11'))


def bounded(chk):
    with open(os.path.join(core.ROOT, 'contracts', 'corpus_rules.json')) as f:
        corpus = [c[2] for c in json.load(f)]
    n = 40000 if chk.thorough else 4000
    for cnt, bad in core.parallel(reports, [(chk.seed * 131 + i, corpus, n // 8) for i in range(8)], timeout=800):
        chk.bound('text reports of random exchanges against an independent rendering', cnt, 'corpus and mutations, 1-3 exchanges each')
        if bad:
            chk.violation('report', 'the text report differs from the visible notices', bad)
    n = 16000 if chk.thorough else 1600
    for cnt, bad in core.parallel(cli_runs, [(chk.seed * 137 + i, n // 8) for i in range(8)], timeout=800):
        chk.bound('runs of the command line on combined files', cnt, 'random streams, options and errors')
        if bad:
            chk.violation('cli', 'exit status or report differ from the visible notices', bad)
    cnt, bad = arguments()
    chk.bound('command lines', cnt, 'all formats and options')
    if bad:
        chk.violation('arguments', 'command line arguments misread', bad)
