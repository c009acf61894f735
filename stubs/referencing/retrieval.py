import json

from . import Resource


def to_cached_resource(cache=None, loads=json.loads, from_contents=Resource.from_contents):
    def decorator(retrieve):
        def cached_retrieve(uri):
            return from_contents(loads(retrieve(uri)))

        return cached_retrieve if cache is None else cache(cached_retrieve)

    return decorator
