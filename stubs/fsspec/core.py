from recap_analysis import hook
def url_to_fs(url, **kw):
    return hook("fsspec.url_to_fs", url, **kw)
