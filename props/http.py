"""A stand-in for every HTTP exchange of the requests library (nothing leaves the process)."""


class Response:
    def __init__(self, status=200, data=None, text=None, reason='reason'):
        self.status_code, self._data, self._text, self.reason = status, data, text, reason
        self.headers = {}
        self.url = ''

    @property
    def ok(self):
        return self.status_code < 400

    @property
    def text(self):
        if self._text is not None:
            return self._text
        return 'some text'

    @property
    def content(self):
        return self.text.encode()

    def json(self, **kw):
        if self._data is None:
            raise ValueError('no JSON')
        return self._data

    def raise_for_status(self):
        import requests
        if self.status_code >= 400:
            raise requests.exceptions.HTTPError('status', response=self)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Request:
    def __init__(self, method, url, query, form, js, kw):
        self.method, self.url, self.query, self.form, self.js, self.kw = method, url, query, form, js, kw


def install(h, handler, limit=60):
    """handler(Request) -> Response or raises; returns the log of requests"""
    import requests
    from urllib.parse import urlsplit, parse_qsl
    log = []

    def request(self, method, url, params=None, data=None, json=None, **kw):
        if len(log) >= limit:
            raise AssertionError('more than %d HTTP requests' % limit)
        parts = urlsplit(url)
        query = dict(parse_qsl(parts.query))
        for k, v in dict(params or {}).items():
            query[k] = str(v)
        r = Request(method.upper(), parts.scheme + '://' + parts.netloc + parts.path, query, data, json, kw)
        log.append(r)
        return handler(r)

    h.patch(requests.sessions.Session, 'request', request)
    return log


def outage(h, name):
    """one of the ways a service can be unreachable"""
    import requests
    k = h.fork(name, 4)
    if k == 0:
        raise requests.exceptions.ConnectionError('down')
    if k == 1:
        raise requests.exceptions.Timeout('slow')
    if k == 2:
        raise requests.exceptions.ReadTimeout('slow')
    return Response(503)
