"""A simulated network in the place of the requests package: every request is
answered from the plan in VSIM_NET (JSON: list of behaviours, one per request,
the last one repeated), in simulated time."""
import io
import json
import os
import sys

_plan = json.load(open(os.environ['VSIM_NET']))
_n = [0]
now = [0.0]          # simulated seconds


def _log(s):
    fd = os.open(os.environ['VSIM_NET'] + '.log', os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666)
    os.write(fd, (s + '\n').encode())
    os.close(fd)


class RequestException(IOError):
    def __init__(self, *a, **k):
        self.response = k.pop('response', None)
        self.request = k.pop('request', None)
        super().__init__(*a)


class HTTPError(RequestException):
    pass


class ConnectionError(RequestException):
    pass


class ProxyError(ConnectionError):
    pass


class SSLError(ConnectionError):
    pass


class Timeout(RequestException):
    pass


class ConnectTimeout(ConnectionError, Timeout):
    pass


class ReadTimeout(Timeout):
    pass


class TooManyRedirects(RequestException):
    pass


class ChunkedEncodingError(RequestException):
    pass


class ContentDecodingError(RequestException):
    pass


class _Ns(object):
    pass


exceptions = type(sys)('requests.exceptions')
for _k, _v in list(globals().items()):
    if isinstance(_v, type) and issubclass(_v, RequestException):
        setattr(exceptions, _k, _v)
sys.modules['requests.exceptions'] = exceptions
codes = _Ns()
codes.ok = 200
REASON = {200: 'OK', 302: 'Found', 206: 'Partial Content', 204: 'No Content', 202: 'Accepted'}


def _wait(seconds, limit, what):
    """Waits in simulated time; the client's limit decides who gives up."""
    if limit is not None and seconds > limit:
        now[0] += limit
        _log('time %g' % now[0])
        raise (ConnectTimeout if what == 'connect' else ReadTimeout)('timed out')
    if seconds == float('inf'):
        _log('forever')
        os._exit(97)      # nobody will ever wake this client
    now[0] += seconds
    _log('time %g' % now[0])


def _limits(t):
    if isinstance(t, tuple):
        return t
    return (t, t)


class Raw(io.BytesIO):
    decode_content = False


class Response(object):
    encoding = 'utf-8'
    apparent_encoding = 'utf-8'

    def __init__(self, b, url, timeout, stream):
        self.b, self.url, self.history = b, url, []
        self.status_code = b.get('status', 200)
        self.reason = REASON.get(self.status_code, 'Error')
        self._limit = _limits(timeout)[1]
        with open(b['body'], 'rb') as f:
            self._body = f.read()
        self.headers = {'Content-Type': b.get('type', 'application/zip'),
                        'content-type': b.get('type', 'application/zip')}
        if b.get('length') is not None:
            self.headers['Content-Length'] = str(b['length'])
            self.headers['content-length'] = str(b['length'])
        self._content = None
        if not stream:
            self._read()

    def _read(self):
        if self._content is None:
            for d in self.b.get('delays', []):
                _wait(float('inf') if d == 'inf' else d, self._limit, 'read')
            e = self.b.get('break')
            if e == 'reset':
                raise ConnectionError('Connection reset by peer')
            if e == 'chunked':
                raise ChunkedEncodingError('Connection broken: IncompleteRead')
            self._content = self._body
        return self._content

    content = property(_read)

    @property
    def text(self):
        return self._read().decode('utf-8', 'replace')

    @property
    def ok(self):
        return self.status_code < 400

    @property
    def is_redirect(self):
        return self.status_code == 302

    is_permanent_redirect = False

    @property
    def raw(self):
        return Raw(self._read())

    def iter_content(self, chunk_size=1, decode_unicode=False):
        c = None
        n = chunk_size or 65536
        if self.b.get('break') or 'inf' in self.b.get('delays', []):
            # some data arrives before the connection dies
            for i in range(0, len(self._body), n):
                yield self._body[i:i + n]
        c = self._read()
        for i in range(0, len(c), n):
            yield c[i:i + n]

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError('%d %s' % (self.status_code, self.reason), response=self)

    def json(self, **k):
        return json.loads(self.text)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __bool__(self):
        return self.ok


MOVED = 'https://codeload.github.com/shibatch/sleef/zip/refs/tags/3.5.1'


def request(method, url, timeout=None, stream=False, allow_redirects=True, **k):
    b = _plan[min(_n[0], len(_plan) - 1)]
    found = 'sleef' in url and (url.endswith('3.5.1.zip') or url == MOVED)
    if found and url != MOVED and not allow_redirects and not b.get('connect') \
            and not b.get('connect_delay'):
        # archives of releases are served by another host
        _log('%s %s' % ('MOVED', url))
        r = Response(dict(status=302, body=os.devnull, type='text/html', length=0),
                     url, timeout, stream)
        r.headers['Location'] = r.headers['location'] = MOVED
        return r
    _n[0] += 1
    _log('%s %s' % (method, url))
    if not found:
        b = dict(status=404, body=b['html'], type='text/html')
    c = _limits(timeout)[0]
    if b.get('connect_delay'):
        _wait(float('inf') if b['connect_delay'] == 'inf' else b['connect_delay'],
              c, 'connect')
    e = b.get('connect')
    if e:
        raise dict(dns=ConnectionError, refused=ConnectionError, ssl=SSLError,
                   proxy=ProxyError, redirects=TooManyRedirects)[e](e)
    r = Response(b, url, timeout, stream)
    return r


def get(url, params=None, **k):
    return request('GET', url, **k)


def head(url, **k):
    k.setdefault('allow_redirects', False)
    return request('HEAD', url, **k)


class Session(object):
    def __init__(self):
        self.headers = {}

    def get(self, url, **k):
        return get(url, **k)

    def request(self, *a, **k):
        return request(*a, **k)

    def mount(self, *a):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


session = Session


class HTTPAdapter(object):
    def __init__(self, *a, **k):
        pass


adapters = type(sys)('requests.adapters')
adapters.HTTPAdapter = HTTPAdapter
sys.modules['requests.adapters'] = adapters
