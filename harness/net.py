"""A stand-in for the network below `requests`: every request ends here, nothing leaves the process."""
import io
import requests, requests.adapters
from urllib3.exceptions import ProtocolError
from urllib3.response import HTTPResponse


class Broken(io.RawIOBase):
    """a body that breaks off"""

    def __init__(self, data):
        self.data, self.pos = data, 0

    def stream(self, n, decode_content=None):
        yield self.data
        raise ProtocolError("Connection broken")

    def read(self, *a, **k):
        if self.pos == 0 and self.data:
            self.pos = 1
            return self.data
        raise ProtocolError("Connection broken")

    def close(self):
        pass

    def release_conn(self):
        pass


class Net:
    """answer(url) -> (kind, body); kinds: ok, http:<status>, net, timeout, broken"""

    def __init__(self):
        self.urls = []
        self.answer = lambda url: ("net", b"")

    def install(self):
        net = self

        def send(adapter, request, **kw):
            net.urls.append(request.url)
            kind, body = net.answer(request.url)
            if kind == "net":
                raise requests.exceptions.ConnectionError("no route", request=request)
            if kind == "timeout":
                raise requests.exceptions.ReadTimeout("timeout", request=request)
            r = requests.Response()
            r.request, r.url, r.headers = request, request.url, requests.structures.CaseInsensitiveDict()
            r.status_code = int(kind[5:]) if kind.startswith("http:") else 200
            if kind == "broken":
                r.raw = Broken(body)
            else:
                r.raw = HTTPResponse(body=io.BytesIO(body), preload_content=False, status=r.status_code)
                r.headers["Content-Length"] = str(len(body))
            return r
        requests.adapters.HTTPAdapter.send = send
        return self

    def take(self):
        u, self.urls = self.urls, []
        return u
