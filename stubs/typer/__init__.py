from recap_analysis import hook
class Exit(Exception):
    def __init__(self, code=0):
        self.args = (code,)
        self.exit_code = code
class BadParameter(Exception):
    pass
class Typer:
    def __init__(self, **kw):
        self.commands = []
    def command(self, name=None, **kw):
        def deco(fn):
            self.commands.append((name or fn.__name__.replace("_", "-"), fn))
            return fn
        return deco
    def callback(self, **kw):
        return lambda fn: fn
    def __call__(self, *a, **k):
        pass
class _Info:
    def __init__(self, default=None):
        self.default = default
def Argument(default=None, *a, **k):
    return _Info(default)
def Option(default=None, *a, **k):
    return _Info(default)
def echo(message=None, **kw):
    hook("typer.echo", message)
