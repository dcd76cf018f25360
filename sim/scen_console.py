"""C14: the web console - uploads that break, failing loads, concurrency."""
import json
import os
import pkgutil

from hiku import edn
from hiku.console import ui
from hiku.console.ui import ConsoleApplication

from .aioloop import EXEC
from .core import Violation, canon, short_tb
from .gen import Config, gen_graph, gen_query, REQUIRED
from .harness import Sim, check_loads, diff
from .model import Obj, Loads, expected
from .multi import Job
from .scen_endpoint import places
from .scen_shared import schedule
from .seams import STATE
from .world import Exec, LoadError

LIMIT = 2 ** 20
VALUES = (1, 2, -1, -2, True, 1.5, 0, False, None, '', 'z', 'é',
          'q "u" \\ o', '[', ':k', '; no', '\n')


# the script of the page is built apart from the source code
SCRIPT = 'alert("\u00fc\u4e16") // the script\n'.encode()
SCRIPT_PATH = os.path.join(os.path.dirname(ui.__file__), 'assets', 'console.js')
if os.path.exists(SCRIPT_PATH):
    with open(SCRIPT_PATH, 'rb') as script:
        SCRIPT = script.read()
else:
    get_data = pkgutil.get_data

    def get_built_data(package, resource):
        if (package, resource) == ('hiku.console', 'assets/console.js'):
            return SCRIPT
        return get_data(package, resource)
    pkgutil.get_data = get_built_data


class ConSim(Sim):
    graph = None
    ctx = None
    debug = False
    _engine = None
    app = None

    @property
    def engine(self):
        return self._engine

    @engine.setter
    def engine(self, engine):
        self._engine = engine
        if engine is not None:
            self.app = ConsoleApplication(self.graph, engine, self.ctx,
                                          **self.debug_arg())

    def debug_arg(self):
        if self.debug or self.run.ch.chance(30):
            return {'debug': self.debug}
        return {}       # it is off unless asked for

    def execute(self, graph, query, exec_):
        if self.sched is not None:
            self.sched.me().exec = exec_
        else:
            EXEC.set(exec_)
        return call(self.app, query)


class Response:

    def __init__(self):
        self.starts = []
        self.written = []
        self.body = None
        self.status = None
        self.headers = None


def call(app, request):
    """what a WSGI server does"""
    r = Response()

    def start_response(status, headers, exc_info=None):
        r.starts.append((status, list(headers), exc_info))
        return r.written.append
    environ = request.environ()
    result = app(environ, start_response)
    try:
        chunks = list(result)
    finally:
        if hasattr(result, 'close'):
            result.close()
    if len(r.starts) != 1:
        raise Violation('not-one-response', 'start_response was called {} '
                        'times'.format(len(r.starts)))
    r.body = b''.join(r.written + chunks)
    r.status = r.starts[0][0]
    r.headers = r.starts[0][1]
    return r


class Upload:
    """wsgi.input: the bytes come in pieces, late, or not at all"""

    def __init__(self, run, data, pieces=None, fail_at=None, error=None,
                 short=False):
        self.run = run
        self.data = data
        self.pos = 0
        self.pieces = pieces
        self.fail_at = fail_at
        self.error = error
        self.short = short

    def read(self, size=-1):
        if size is None or size < 0:
            size = len(self.data) - self.pos
        out = b''
        while len(out) < size:
            if self.fail_at is not None and self.pos >= self.fail_at:
                self.run.fault('reading the upload fails')
                raise type(self.error)(*self.error.args)
            n = size - len(out)
            if self.fail_at is not None:
                n = min(n, self.fail_at - self.pos)
            if self.pieces:
                n = min(n, self.pieces)
                s = STATE.sched
                if s is not None and s.me() is not None:
                    s.pause('upload')
            part = self.data[self.pos:self.pos + n]
            if not part:
                break
            self.pos += len(part)
            out += part
            if self.short:
                break
        return out

    def readline(self, size=-1):
        return self.read(size)

    def __iter__(self):
        return iter([self.read()])


class Request:
    path = '/'
    method = 'GET'
    script = ''
    upload = None
    length = None
    what = 'page'
    expect = '200'        # how the status must begin, None: see check
    items = None          # the query, if there is a complete one
    valid = False
    broken = False        # reading the upload raises

    def environ(self):
        env = {'REQUEST_METHOD': self.method, 'PATH_INFO': self.path,
               'SCRIPT_NAME': self.script, 'SERVER_NAME': 'sim',
               'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
               'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http',
               'wsgi.multithread': True, 'wsgi.multiprocess': False,
               'wsgi.run_once': False}
        if self.upload is not None:
            env['wsgi.input'] = self.upload()
            if self.length is not None:
                env['CONTENT_LENGTH'] = self.length
        return env

    def __repr__(self):
        return '{} {} {}'.format(self.what, self.method, self.path)


# -- EDN --------------------------------------------------------------------

class Writer:

    def __init__(self, ch):
        self.ch = ch
        self.loose = ch.pick((0, 20))

    def sep(self):
        if self.loose and self.ch.chance(self.loose):
            return self.ch.pick((', ', '\n  ', ' ; note ] }\n', '  '))
        return ' '

    def value(self, v):
        if v is None:
            return 'nil'
        if v is True:
            return 'true'
        if v is False:
            return 'false'
        if isinstance(v, edn.Keyword):
            return ':' + v
        if isinstance(v, edn.Dict):
            return '{' + self.sep().join(self.value(x) for kv in v.items()
                                         for x in kv) + '}'
        if isinstance(v, (edn.List, edn.Tuple, edn.Set)):
            begin, end = '[]' if isinstance(v, edn.List) else '()' \
                if isinstance(v, edn.Tuple) else ('#{', '}')
            return begin + self.sep().join(map(self.value, v)) + end
        if isinstance(v, str):
            return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
        return repr(v)

    def name(self, it):
        if not it.opts:
            return ':' + it.name
        return '(:{}{}{{{}}})'.format(it.name, self.sep(), self.sep().join(
            ':{}{}{}'.format(k, self.sep(), self.value(v))
            for k, v in it.opts.items()))

    def item(self, it):
        if it.sub is None:
            return self.name(it)
        return '{{{}{}{}}}'.format(self.name(it), self.sep(),
                                   self.node(it.sub))

    def node(self, items):
        return '[' + self.sep().join(self.item(i) for i in items) + ']'


def edn_value(ch, v):
    """as the value comes out of a text in EDN"""
    if isinstance(v, (list, tuple, set, frozenset)):
        how = ch.pick((edn.List, edn.List, edn.Tuple, edn.Set))
        return how(edn_value(ch, x) for x in v)
    if isinstance(v, dict):
        return edn.Dict((edn.Keyword(k) if isinstance(k, str) and k and
                         ch.chance(70) else edn_value(ch, k),
                         edn_value(ch, x)) for k, x in v.items())
    if isinstance(v, (str, bool, int, float)) or v is None:
        return v
    return 3


def plain_items(ch, items):
    """EDN knows no aliases, and options are values of EDN"""
    out, seen = [], {}
    for it in items:
        it.alias = None
        if it.opts:
            it.opts = {k: edn_value(ch, v) for k, v in it.opts.items()}
        sig = canon(it.opts)
        if it.sub is not None:
            it.sub = plain_items(ch, it.sub)
        if it.name in seen:
            if seen[it.name] != sig:
                continue
        seen[it.name] = sig
        out.append(it)
    return out


def consistent(items, seen=None):
    """drops fields and links that repeat one with other options"""
    seen = {} if seen is None else seen
    out = []
    for it in items:
        sig, sub = seen.setdefault(it.name, (canon(it.opts), {}))
        if sig != canon(it.opts):
            continue
        if it.sub is not None:
            it.sub = consistent(it.sub, sub)
        out.append(it)
    return out


MALFORMED = ('[', ']', '', '   ', ':a', '{:a [:b]}', '"text"', '42', 'nil',
             '[:%s', '[:%s]]', '[:%s] [:%s]', '[:%s}', '[(:%s)]', '[{:%s}]',
             '[{:%s :x}]', '[(:%s {:a})]', '[(:%s {"a" 1})]', '[(:%s [1])]',
             '[(:%s {:a 1} {:b 2})]', '["%s"]', '[%s]', '[@%s]', '[:%s "un',
             '[:%s \\', '[#inst "x"]', '[#{:%s}]', '[[:%s]]', '[{"%s" [:x]}]',
             '; [:%s]', '[:%s ; ]', 'deep', '[\\nothing]', '[(:%s')


class Maker:

    def __init__(self, run, cfg, g, deep):
        self.run = run
        self.ch = run.ch
        self.cfg = cfg
        self.g = g
        self.deep = deep    # how deep an upload may nest

    def request(self):
        ch = self.ch
        r = Request()
        r.script = ch.pick(('', '/console', '/c/', '/\xc3\xbc'))
        how = ch.weighted(((6, 'query'), (5, 'broken'), (3, 'malformed'),
                           (3, 'invalid'), (3, 'page')))
        if how == 'page':
            r.path, r.method, r.expect = ch.pick((
                ('/', 'GET', '200'), ('/docs', 'GET', '200'),
                ('', 'GET', '200'), ('/', 'PUT', '405'),
                ('/docs', 'POST', '405'), ('/console.js', 'POST', '405'),
                ('/console.js', 'GET', '200'),
                ('/nothing', 'GET', '404'), ('/nothing', 'POST', '404'),
                ('/docs/', 'GET', '404')))
            if r.method != 'GET':
                text = self.query()[1].encode()
                r.upload = lambda: Upload(self.run, text)
                r.length = str(len(text))
            r.what = 'page {} {}'.format(r.method, r.path)
            return r
        r.method = 'POST'
        r.path = ch.pick(('/', '/', ''))
        items, text = self.query()
        data = text.encode()
        r.length = str(len(data))
        pieces = ch.pick((None, None, 1 + len(data) // 2, 7))
        if how == 'query':
            r.what = 'query'
            r.items, r.valid = items, True
            end = ch.below(4)
            if end == 1:
                r.length = len(data)       # as in the tests
            elif end == 2:
                # all of the query arrives, but not all that was declared
                r.what = 'declared too long'
                r.items, r.valid, r.expect = items, False, None
                r.length = str(len(data) + ch.pick((1, 100)))
            elif end == 3:
                data += b' \n, ' + b'; ]'
                r.length = str(len(data) - ch.below(4))
            r.upload = lambda: Upload(self.run, data, pieces)
        elif how == 'broken':
            self.broken(r, items, data, pieces)
        elif how == 'malformed':
            self.malformed(r, data, pieces)
        else:
            self.invalid(r, items, pieces)
        return r

    def query(self):
        items = plain_items(self.ch, gen_query(self.ch, self.cfg, self.g,
                                               self.ch.pick((4, 12))))
        items = consistent(items)
        return items, Writer(self.ch).node(items)

    def broken(self, r, items, data, pieces):
        ch, run = self.ch, self.run
        r.expect = 'error'
        how = ch.below(8)
        at = ch.below(len(data))
        if how == 0:
            r.what = 'upload cut short'
            if ch.chance(30):
                # what arrives could be taken for a query
                more = ch.pick((b' [', b' [:x]', b' }', b'\n' + data, b' :x',
                                b' "', b']', b' ;\n{'))
                r.length = str(len(data) + len(more))
                part = data + more[:ch.below(2)].strip(b']')
                r.upload = lambda: Upload(run, part, pieces)
            else:
                r.upload = lambda: Upload(run, data[:at], pieces)
        elif how == 1:
            r.what = 'short read'
            r.items, r.expect = items, None
            r.upload = lambda: Upload(run, data, 1 + at, short=True)
        elif how == 2:
            r.what = 'reading fails'
            r.broken = True
            error = ch.pick((OSError('reset'), ConnectionResetError('reset'),
                             TimeoutError('slow'), ValueError('closed')))
            r.upload = lambda: Upload(run, data, pieces, at, error)
        elif how == 3:
            r.what = 'declared too short'
            r.length = str(at)
            r.upload = lambda: Upload(run, data, pieces)
        elif how == 4:
            r.what = 'too big'
            r.expect = '400'
            if ch.chance(50):
                # the query is there, blanks make it too big
                r.length = str(LIMIT + 1)
                r.upload = lambda: Upload(run, data + b' ' *
                                          (LIMIT + 1 - len(data)))
            else:
                r.length = str(LIMIT + ch.pick((1, 10 ** 6, 10 ** 12)))
                r.upload = lambda: Upload(run, data, pieces)
        elif how == 5:
            r.what = 'no length'
            r.length = ch.pick((None, '', '0', '-1', '-7',
                                '-{}'.format(len(data))))
            r.upload = lambda: Upload(run, data, pieces)
        elif how == 7:
            r.what = 'length is not a number'
            r.length = ch.pick(('many', '{}, {}'.format(len(data), len(data)),
                                '0x{:x}'.format(len(data)),
                                '{}.0'.format(len(data))))
            r.upload = lambda: Upload(run, data, pieces)
        else:
            r.what = 'not UTF-8'
            # inside of a name, a string or between them
            bad = ch.pick((b'\xff', b'\xc3', b'\xed\xa0\x80'))
            cut = data[:1 + at] + bad + data[1 + at:]
            try:
                cut.decode()
            except UnicodeDecodeError:
                pass
            else:
                cut = b'\xff' + data
            r.length = str(len(cut))
            r.upload = lambda: Upload(run, cut, pieces)
        run.fault(r.what)

    def malformed(self, r, data, pieces):
        ch, run = self.ch, self.run
        r.what = 'malformed'
        r.expect = 'error'
        name = ch.pick(sorted(self.g.root.items))
        text = ch.pick(MALFORMED)
        if ch.chance(30):
            text = data.decode() + ch.pick((']', ' [:{}]'.format(name), '}',
                                            ' 1', '"', '\0', '\0\0', ' @'))
        elif ch.chance(10):
            text = ch.pick(('\ufeff', '\0', '@', '\x0b')) + data.decode()
        else:
            text = '[' * self.deep if text == 'deep' \
                else text.replace('%s', name)
        bad = text.encode()
        r.length = str(len(bad))
        r.upload = lambda: Upload(run, bad, pieces)
        run.fault(r.what)

    def invalid(self, r, items, pieces):
        ch, run = self.ch, self.run
        r.what = 'invalid'
        r.expect = '400'
        from .gen import Item
        sel, node, rec = ch.pick(places(self.g, self.g.root, items))
        how = ch.below(4)
        bad = None
        if how == 1 and node is not None and node.links():
            ln = ch.pick(node.links())
            if all(it.name != ln.name for it in sel):
                bad = Item(ln.name, {o.name: 1 for o in ln.options
                                     if o.default is REQUIRED} or None)
        elif how == 2 and node is not None:
            fits = [f for f in node.fields() if f.ctype is None and
                    all(it.name != f.name for it in sel)]
            if fits:
                f = ch.pick(fits)
                bad = Item(f.name, {o.name: 1 for o in f.options
                                    if o.default is REQUIRED} or None, None,
                           [Item('x')])
        elif how == 3 and node is not None:
            fits = [f for f in node.fields() if f.ctype is None and
                    all(it.name != f.name for it in sel)]
            if fits:
                f = ch.pick(fits)
                req = [o.name for o in f.options if o.default is REQUIRED]
                opts = {n: 1 for n in req}
                if req and ch.chance(50):
                    del opts[ch.pick(req)]
                else:
                    opts['nope'] = 1
                bad = Item(f.name, opts or None)
        if bad is None:
            bad = Item('nope', None, None, ch.pick((None, [Item('x')])))
        sel.insert(ch.below(len(sel) + 1), bad)
        data = Writer(ch).node(items).encode()
        r.length = str(len(data))
        r.upload = lambda: Upload(run, data, pieces)


SECRET = 'secret of the load'
DESCRIPTIONS = ('text', '\xfcber \u2192 \U0001f600', 'quoted "text"', '%s {} $x')


def c14(run):
    ch = run.ch
    cfg = Config(ch, max_items=3, depth=2, alias=0, large=ch.chance(1),
                 options=ch.pick((0, 30, 60)), ctx=ch.pick((0, 40)))
    g = gen_graph(ch, cfg)
    described = ch.pick((0, 40))
    for node in [g.root] + list(g.nodes.values()):
        if ch.chance(described):
            node.descr = ch.pick(DESCRIPTIONS)
        for it in node.items.values():
            if ch.chance(described):
                it.descr = ch.pick(DESCRIPTIONS)
            if described and not it.link and it.ctype is None and \
                    ch.chance(60):
                it.decl = ch.pick(('Any', 'Integer', 'String',
                                   'Sequence[Integer]'))
            for o in it.options:
                if o.default is not REQUIRED:
                    o.default = ch.pick(VALUES)
                o.values = VALUES
    style = ch.pick(('threads', 'inline threads', 'one after another'))
    mode = {'threads': 'threads', 'inline threads': 'sync'}.get(style)
    if mode is None:
        mode = ch.pick(('sync', 'threads'))
    sim = ConSim(run, mode)
    world = sim.world
    sim.graph = world.graph(g)
    sim.ctx = ch.pick((None, {'u': 1}))
    sim.debug = ch.chance(30)
    # the parser's work grows with the square of the depth: with a switch
    # at every instruction a run would take minutes
    make = Maker(run, cfg, g, 3000 if style == 'one after another' else 40)
    jobs = []
    for i in range(ch.between(1, 3)):
        r = make.request()
        job = Job(Exec(i, sim.ctx), None, r, r.items, g, sim.ctx)
        if style != 'one after another':
            job.delay = ch.below(3)
        jobs.append(job)
        run.probe(r.what)
    run.probe('style: ' + style)
    run.nontrivial = len(jobs) > 1 or jobs[0].query.what != 'page'
    run.note = {'style': style, 'executor': mode, 'debug': sim.debug,
                'requests': [repr(j.query) for j in jobs],
                'uploads': [j.query.upload().data[:300].decode(
                    'utf-8', 'replace') if j.query.upload else None
                    for j in jobs]}
    victim = None
    state = {'hits': 0}
    queries = [j for j in jobs if j.query.items]
    if queries and ch.chance(35):
        victim = ch.pick(queries)
        at = ch.below(3)
        kind = ch.pick(('raise', 'raise', 'odd'))
        seen = [0]

        def behave(c):
            if c.exec is victim.exec and not (
                    kind == 'odd' and c.func.kind != 'F'):
                seen[0] += 1
                if seen[0] == at + 1:
                    state['hits'] += 1
                    if kind == 'raise':
                        run.fault('a load fails')
                        return ('raise', LoadError(SECRET))
                    run.fault('a value JSON does not know')
                    return ('shape', odd)
            return None
        world.behave = behave
    state['kind'] = kind if victim else None
    try:
        schedule(run, sim, jobs, style)
    except Exception:
        world.check()
        raise
    world.check()
    for j in jobs:
        check_job(sim, j, j is victim, state)
    for c in world.calls:
        if c.exec is None:
            raise Violation('stray-call', '{} belongs to no request'.format(c))


def odd(value, call):
    """the same shape, with values that can not be written as JSON"""
    if call.info[2] is None:
        return [{1, 2} for _ in value]
    return [[{1, 2} for _ in row] for row in value]


def check_job(sim, j, victim, state):
    r = j.query
    kind, value = j.outcome
    if kind == 'error':
        if r.broken and not j.exec.calls and not isinstance(value, Violation):
            return        # the server ends the connection
        if r.path == '/console.js' and r.method == 'GET' and \
                isinstance(value, FileNotFoundError):
            return        # it is not built here
        raise Violation('no-response', '{} raised {}'.format(
            r, short_tb(value)))
    w = value
    lengths = [v for k, v in w.headers if k.lower() == 'content-length']
    if lengths != [str(len(w.body))]:
        raise Violation('wrong-length', '{}: {} declared, {} bytes sent'
                        .format(r, lengths, len(w.body)))
    if len(w.status) < 4 or not w.status[:3].isdigit() or w.status[3] != ' ':
        raise Violation('bad-status', '{!r} for {}'.format(w.status, r))
    ok = w.status.startswith('2')
    if not sim.debug and SECRET.encode() in w.body:
        raise Violation('disclosed', '{}: a traceback is sent although '
                        'debugging is off'.format(r))
    if not r.items:
        if j.exec.calls:
            raise Violation('broken-upload-ran', '{} called {}'.format(
                r, j.exec.calls))
        if r.expect == 'error':
            if ok or w.status[0] not in '45':
                raise Violation('broken-upload-succeeded', '{} was answered '
                                'with {}'.format(r, w.status))
        elif not w.status.startswith(r.expect):
            raise Violation('wrong-status', '{} was answered with {} instead '
                            'of {}'.format(r, w.status, r.expect))
        if ok and r.path == '/docs':
            alone = ConsoleApplication(sim.graph, None, sim.ctx)
            want = b''.join(alone(r.environ(), lambda status, headers: None))
            if w.body != want:
                raise Violation('wrong-answer', '{}: {!r} instead of {!r}'
                                .format(r, w.body[:300], want[:300]))
        elif ok and r.path == '/console.js':
            if w.body != SCRIPT:
                raise Violation('wrong-answer', '{}: {!r}'.format(
                    r, w.body[:300]))
        elif ok:
            for page in ('/', '/docs', '/console.js'):
                url = r.script.rstrip('/') + page
                if "'{}'".format(url) not in w.body.decode() and \
                        '"{}"'.format(url) not in w.body.decode():
                    raise Violation('wrong-answer', '{}: no {} on the page'
                                    .format(r, url))
        if r.what == 'invalid':
            try:
                errors = json.loads(w.body.decode())['errors']
            except Exception as e:
                raise Violation('wrong-answer', '{}: {}'.format(r, e))
            if not errors or not all(isinstance(e, str) for e in errors):
                raise Violation('wrong-answer', '{}: errors {!r}'.format(
                    r, errors))
        return
    failed = victim and state['hits']
    if not ok:
        if failed or not r.valid:
            if not r.valid and j.exec.calls and not failed:
                raise Violation('broken-upload-ran', '{} called {}'.format(
                    r, j.exec.calls))
            if w.status[0] not in '45':
                raise Violation('wrong-status', '{}: {}'.format(r, w.status))
            return
        raise Violation('wrong-status', '{} was answered with {}: {}'.format(
            r, w.status, w.body[-600:]))
    if failed and state['kind'] == 'raise':
        raise Violation('failure-lost', 'a load of {} failed, the answer is '
                        '{}'.format(r, w.body[:300]))
    try:
        got = json.loads(w.body.decode())
    except Exception as e:
        raise Violation('wrong-answer', '{}: not JSON ({})'.format(r, e))
    if not failed:
        want = expected(Obj(j.g, j.g.root, None, j.ctx or {}), r.items)
        d = diff(got, json.loads(json.dumps(want)))
        if d:
            raise Violation('wrong-answer', '{}: {}'.format(r, d))
        check_loads(j.loads, j.exec.calls)
