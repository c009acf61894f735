from recap_analysis import hook
from fsspec import core
def filesystem(protocol, **kw):
    return hook("fsspec.filesystem", protocol, **kw)
def open(urlpath, mode="rb", **kw):
    return hook("fsspec.open", urlpath, mode, **kw)
url_to_fs = core.url_to_fs
class AbstractFileSystem:
    pass
