from recap_analysis import hook
def connect(*a, **k):
    return hook("sqlite3.connect", *a, **k)
class Error(Exception):
    pass
class OperationalError(Error):
    pass
