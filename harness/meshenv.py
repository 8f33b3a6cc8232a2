"""Stand-in for the HTTP side of the mesh: a requests session whose answers the scenario decides."""
import json as _json

from harness import stubs
from harness.stubs import ENV


class Answer(object):
    """One HTTP answer."""

    def __init__(self, status, body, bad_json=False):
        self.status_code = status
        self.body = body
        self.bad_json = bad_json
        self.headers = {}
        self.reason = "reason"
        self.url = "http://127.0.0.1:13330/"

    @property
    def ok(self):
        return self.status_code < 400

    def raise_for_status(self):
        import requests
        if self.status_code >= 400:
            raise requests.HTTPError("status")

    def json(self, **kw):
        if self.bad_json:
            raise ValueError("not JSON")
        return self.body

    @property
    def text(self):
        return "not JSON" if self.bad_json else _json.dumps(self.body)

    @property
    def content(self):
        return self.text.encode("utf-8")


class FakeSession(object):
    def __init__(self):
        self.headers = {}

    def request(self, method, url, data=None, json=None, **kw):
        if json is None and data is not None:
            json = _json.loads(data)
        ENV.posts.append((method.lower(), url, json))
        return ENV.http(url, json)

    def post(self, url, data=None, json=None, **kw):
        return self.request("post", url, data=data, json=json, **kw)

    def get(self, url, **kw):
        return self.request("get", url, **kw)

    def put(self, url, data=None, **kw):
        return self.request("put", url, data=data, **kw)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _post(url, data=None, json=None, **kw):
    return FakeSession().post(url, data=data, json=json, **kw)


def refuse(url, json):
    """No mesh: nothing listens there."""
    import requests
    raise requests.ConnectionError("refused")


def accept(url, json):
    return Answer(200, {"success": True})


def install_mesh(S, http):
    """Before the packages under test are imported. http(url, json) -> Answer or raises."""
    import requests
    ENV.posts = []
    ENV.http = http
    stubs.patch(requests, "session", FakeSession)
    stubs.patch(requests, "Session", FakeSession)
    stubs.patch(requests, "post", _post)
