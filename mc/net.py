"""A scripted network: every request that leaves the process through requests,
urllib or ftplib ends here, at the transport, so that clients may be written
in any style.  Time is virtual while a network is active."""
import ftplib
import io
import json
import signal
import time
import urllib.error
import urllib.parse
import urllib.request
import urllib.response
import warnings
from email.message import Message

import requests
from requests.structures import CaseInsensitiveDict


class Exhausted(BaseException):
    """The client asked more often than the script has answers."""


class Answer:
    def __init__(self, status=200, body='', reason=None, ctype=None):
        if isinstance(body, (dict, list)):
            body = json.dumps(body)
            ctype = ctype or 'application/json'
        self.body = body.encode('utf-8') if isinstance(body, str) else body
        self.status = status
        self.reason = reason if reason is not None else {
            200: 'OK', 400: 'Bad Request', 401: 'Unauthorized',
            403: 'Forbidden', 404: 'Not Found', 422: 'Unprocessable Entity',
            429: 'Too Many Requests', 500: 'Internal Server Error',
            502: 'Bad Gateway', 503: 'Service Unavailable'}.get(status, 'X')
        self.ctype = ctype or 'text/plain; charset=utf-8'


class Request:
    def __init__(self, method, url, headers, body, timeout):
        self.method, self.url = method, url
        self.headers = CaseInsensitiveDict(headers)
        if isinstance(body, str):
            body = body.encode('utf-8')
        self.body = body
        self.timeout = timeout
        parts = urllib.parse.urlsplit(url)
        self.base = urllib.parse.urlunsplit(parts[:3] + ('', ''))
        self.rawquery = parts.query
        pairs = urllib.parse.parse_qsl(parts.query, keep_blank_values=True)
        self.pairs = pairs
        self.query = dict(pairs)
        self.at = CLOCK.now

    @property
    def json(self):
        return json.loads(self.body.decode('utf-8'))


class Clock:
    now = 1.0e9
    naps = ()


CLOCK = Clock()
REAL = {'sleep': time.sleep, 'time': time.time, 'monotonic': time.monotonic,
        'perf_counter': time.perf_counter}


def _sleep(s):
    CLOCK.now += s
    CLOCK.naps = CLOCK.naps + (s,)


def _now():
    return CLOCK.now


FAKE = {'sleep': _sleep, 'time': _now, 'monotonic': _now,
        'perf_counter': _now}


CURRENT = []
_OPENER = []


class Http(urllib.request.HTTPHandler):
    def http_open(self, req):
        return serve(req)


class Https(urllib.request.HTTPSHandler):
    def https_open(self, req):
        return serve(req)


class Ftp(urllib.request.FTPHandler):
    def ftp_open(self, req):
        return serve(req)


def serve(req):
    timeout = req.timeout
    if not isinstance(timeout, (int, float)):
        timeout = None
    ans = CURRENT[-1].ask(req.get_method(), req.full_url,
                          dict(req.header_items()), req.data, timeout)
    msg = Message()
    msg['Content-Type'] = ans.ctype
    res = urllib.response.addinfourl(io.BytesIO(ans.body), msg, req.full_url,
                                     ans.status)
    res.msg = ans.reason
    return res


def opener():
    if not _OPENER:
        _OPENER.append(urllib.request.build_opener(Http, Https, Ftp))
    return _OPENER[0]


class Net:
    """handler(Request) -> Answer, or raises the transport's exception."""

    def __init__(self, handler, ftp=None, modules=()):
        self.handler, self.ftp, self.modules = handler, ftp, modules
        self.log = []

    def ask(self, method, url, headers, body, timeout):
        req = Request(method, url, headers, body, timeout)
        self.log.append(req)
        if len(self.log) > 2000:
            raise Exhausted()
        ans = self.handler(req)
        if isinstance(ans, BaseException):
            raise ans
        return ans

    def __enter__(self):
        net = self
        self.saved = []

        def put(obj, name, val):
            net.saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, val)

        def send(adapter, request, stream=False, timeout=None, verify=True,
                 cert=None, proxies=None):
            ans = net.ask(request.method, request.url, dict(request.headers),
                          request.body, timeout)
            r = requests.Response()
            r.status_code = ans.status
            r.reason = ans.reason
            r._content = ans.body
            r._content_consumed = True
            r.raw = io.BytesIO(ans.body)
            r.url = request.url
            r.request = request
            r.encoding = 'utf-8'
            r.headers['Content-Type'] = ans.ctype
            r.connection = adapter
            return r
        put(requests.adapters.HTTPAdapter, 'send', send)

        put(urllib.request, '_opener', opener())
        CURRENT.append(self)
        if self.ftp is not None:
            put(ftplib, 'FTP', self.ftp)
        for name, fake in FAKE.items():
            if name != 'perf_counter':
                put(time, name, fake)
        for mod in self.modules:
            for k, v in list(vars(mod).items()):
                for name, real in REAL.items():
                    if v is real:
                        put(mod, k, FAKE[name])
        CLOCK.now, CLOCK.naps = 1.0e9, ()
        return self

    def __exit__(self, *a):
        CURRENT.pop()
        for obj, name, val in reversed(self.saved):
            setattr(obj, name, val)


class Outcome:
    def __init__(self):
        self.value = self.error = None
        self.warnings = []

    @property
    def ok(self):
        return self.error is None


def _alarm(*a):
    raise Exhausted('no return')


def run(net, fn, *args, **kw):
    """Call fn under the network; returns an Outcome, never raises.  A call
    that does not come back within 60 s of real time counts as endless."""
    out = Outcome()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 60)
    try:
        return _run(out, net, fn, *args, **kw)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _run(out, net, fn, *args, **kw):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        with net:
            try:
                out.value = fn(*args, **kw)
            except Exhausted as e:
                out.error = e
            except Exception as e:
                out.error = e
    out.warnings = [w for w in caught
                    if not issubclass(w.category, (DeprecationWarning,
                                                   FutureWarning))]
    out.log = net.log
    out.naps = CLOCK.naps
    return out


def script(answers):
    it = iter(answers)

    def handler(req):
        for a in it:
            return a
        raise Exhausted()
    return handler


def site(pages, missing=404):
    """Serve a dict url -> Answer/text; everything else is missing."""
    def handler(req):
        a = pages.get(req.url)
        if a is None:
            return Answer(missing, 'not here')
        return a if isinstance(a, (Answer, BaseException)) else Answer(200, a)
    return handler
