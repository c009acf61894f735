import json
import os
from pydantic import AnyUrl, FieldInfo
from recap_analysis import hook
def SettingsConfigDict(**kw):
    return kw
_missing = object()
def _loads(v):
    return json.loads(v) if isinstance(v, str) else v
def _given(cfg, name, kind):
    """The value of a setting in the environment or in a file of secrets."""
    full = (cfg.get("env_prefix", "") + name).lower()
    complex_ = "list" in kind or "dict" in kind
    value = _missing
    nested = {}
    sep = cfg.get("env_nested_delimiter")
    for k, v in os.environ.items():
        if k.lower() == full:
            value = _loads(v) if complex_ else v
        elif sep and "dict" in kind and k.lower().startswith(full + sep):
            nested[k.lower()[len(full) + len(sep):]] = v
    if nested:
        value = ({} if value is _missing else value) | nested
    if value is _missing and cfg.get("secrets_dir") is not None:
        v = hook("settings.secret", cfg["secrets_dir"], full)
        if v is not None:
            value = _loads(v) if complex_ else v
    return value
class BaseSettings:
    def __init__(self, **kw):
        cfg = {}
        for c in type(self).__mro__:
            if c is not object:
                cfg = c.__dict__.get("model_config", {}) | cfg
        for c in type(self).__mro__:
            for name, kind in c.__dict__.get("__annotations__", {}).items() if c is not object else ():
                if name in self.__dict__ or name == "model_config":
                    continue
                v = kw[name] if name in kw else _given(cfg, name, kind)
                if v is not _missing:
                    pass
                elif name not in c.__dict__:
                    continue
                else:
                    v = c.__dict__[name]
                    if isinstance(v, FieldInfo):
                        v = v.make()
                if isinstance(v, str) and "AnyUrl" in kind and "list" not in kind:
                    v = AnyUrl(v)
                elif isinstance(v, list) and "AnyUrl" in kind:
                    v = [x if isinstance(x, AnyUrl) else AnyUrl(x) for x in v]
                setattr(self, name, v)
