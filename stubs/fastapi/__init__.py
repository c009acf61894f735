class HTTPException(Exception):
    def __init__(self, status_code, detail=None, headers=None):
        self.args = (status_code, detail)
        self.status_code = status_code
        self.detail = detail
        self.headers = headers
class _Depends:
    def __init__(self, dependency=None, use_cache=True):
        self.dependency = dependency
def Depends(dependency=None, use_cache=True):
    return _Depends(dependency)
class Request:
    pass
class Response:
    def __init__(self, content=None, status_code=200, headers=None, media_type=None):
        self.content = content
        self.status_code = status_code
        self.headers = headers
        self.media_type = media_type
class _Params:
    def __init__(self, default=None, **kw):
        self.default = default
def Header(default=None, **kw):
    return _Params(default)
def Query(default=None, **kw):
    return _Params(default)
def Path(default=None, **kw):
    return _Params(default)
def Body(default=None, **kw):
    return _Params(default)
class APIRouter:
    def __init__(self, prefix="", **kw):
        self.prefix = prefix
        self.routes = []
    def _add(self, method, path, fn, kw):
        self.routes.append((method, self.prefix + path, fn, kw))
        return fn
    def get(self, path, **kw):
        return lambda fn: self._add("GET", path, fn, kw)
    def post(self, path, **kw):
        return lambda fn: self._add("POST", path, fn, kw)
    def put(self, path, **kw):
        return lambda fn: self._add("PUT", path, fn, kw)
    def delete(self, path, **kw):
        return lambda fn: self._add("DELETE", path, fn, kw)
    def patch(self, path, **kw):
        return lambda fn: self._add("PATCH", path, fn, kw)
    def head(self, path, **kw):
        return lambda fn: self._add("HEAD", path, fn, kw)
    def api_route(self, path, methods=("GET",), **kw):
        def deco(fn):
            for m in methods:
                self._add(m, path, fn, kw)
            return fn
        return deco
    def add_api_route(self, path, endpoint, methods=("GET",), **kw):
        for m in methods:
            self._add(m, path, endpoint, kw)
    def include_router(self, router, prefix="", **kw):
        for (m, p, f, k) in router.routes:
            self.routes.append((m, self.prefix + prefix + p, f, k))
class FastAPI(APIRouter):
    def __init__(self, **kw):
        self.prefix = ""
        self.routes = []
    def exception_handler(self, exc):
        def deco(fn):
            self.routes.append(("EXC", exc, fn, {}))
            return fn
        return deco
    def add_middleware(self, *a, **k):
        pass
    def middleware(self, kind):
        return lambda fn: fn
class status:
    HTTP_200_OK = 200
    HTTP_201_CREATED = 201
    HTTP_400_BAD_REQUEST = 400
    HTTP_404_NOT_FOUND = 404
    HTTP_409_CONFLICT = 409
    HTTP_415_UNSUPPORTED_MEDIA_TYPE = 415
    HTTP_422_UNPROCESSABLE_ENTITY = 422
