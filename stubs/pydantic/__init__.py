from urllib.parse import urlsplit
class AnyUrl:
    def __init__(self, url):
        self._url = url
    def __str__(self):
        return self._url
    def unicode_string(self):
        return self._url
    def __eq__(self, other):
        return isinstance(other, AnyUrl) and self._url == other._url
    @property
    def scheme(self):
        return urlsplit(self._url).scheme
    @property
    def username(self):
        return urlsplit(self._url).username
    @property
    def password(self):
        return urlsplit(self._url).password
    @property
    def host(self):
        return urlsplit(self._url).hostname
    @property
    def port(self):
        return urlsplit(self._url).port
    @property
    def path(self):
        return urlsplit(self._url).path or None
    @property
    def query(self):
        return urlsplit(self._url).query or None
    @property
    def fragment(self):
        return urlsplit(self._url).fragment or None
class FieldInfo:
    def __init__(self, default=None, default_factory=None):
        self.default = default
        self.default_factory = default_factory
    def make(self):
        return self.default_factory() if self.default_factory is not None else self.default
def Field(default=None, default_factory=None, **kw):
    return FieldInfo(default, default_factory)
