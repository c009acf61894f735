"""Stand-ins for objects outside the program."""
from recap_analysis import hook
class Object:
    def __init__(self, **attrs):
        for k, v in attrs.items():
            setattr(self, k, v)
class Managed(Object):
    """Leaving the block closes it."""
    def __enter__(self):
        hook("env.event", "enter", self)
        return self
    def __exit__(self, *a):
        hook("env.event", "close", self)
    def close(self):
        hook("env.event", "close", self)
class Connection:
    """closes: leaving a block closes the connection (else it only ends the transaction)."""
    def __init__(self, closes):
        self.closes = closes
    def cursor(self, *a, **k):
        return Cursor(self)
    def execute(self, sql, params=()):
        return Cursor(self).execute(sql, params)
    def commit(self):
        pass
    def rollback(self):
        pass
    def close(self):
        hook("env.event", "close", self)
    def __enter__(self):
        hook("env.event", "enter", self)
        return self
    def __exit__(self, *a):
        if self.closes:
            hook("env.event", "close", self)
class Cursor:
    def __init__(self, connection):
        self.connection = connection
        self.description = None
        self._rows = []
    def execute(self, sql, params=()):
        names, rows = hook("env.execute", sql, params)
        self.description = [(n, None, None, None, None, None, None) for n in names]
        self._rows = list(rows)
        return self
    def fetchall(self):
        rows = self._rows
        self._rows = []
        return rows
    def fetchone(self):
        if not self._rows:
            return None
        return self._rows.pop(0)
    def fetchmany(self, size=1):
        rows = self._rows[:size]
        self._rows = self._rows[size:]
        return rows
    def __iter__(self):
        return iter(self.fetchall())
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
def use(create, url):
    with create(url) as client:
        hook("block", client)
class Headers:
    """Header names are not case-sensitive."""
    def __init__(self, items):
        self._items = {k.lower(): v for k, v in items.items()}
    def get(self, name, default=None):
        return self._items.get(name.lower(), default)
    def __getitem__(self, name):
        return self._items[name.lower()]
    def __contains__(self, name):
        return name.lower() in self._items
    def keys(self):
        return list(self._items)
    def items(self):
        return list(self._items.items())
class HttpRequest:
    def __init__(self, headers, body):
        self.headers = Headers(headers)
        self._body = body
    async def body(self):
        hook("env.await", self)
        return self._body
    async def json(self):
        import json
        return json.loads(await self.body())
