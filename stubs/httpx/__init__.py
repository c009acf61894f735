from recap_analysis import hook
def get(url, **kw):
    return hook("httpx.get", url, **kw)
