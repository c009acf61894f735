from . import exceptions


class Resource:
    def __init__(self, contents, specification=None):
        self.contents = contents
        self._specification = specification

    @classmethod
    def from_contents(cls, contents, default_specification=None):
        if default_specification is None and not (isinstance(contents, dict) and "$schema" in contents):
            raise exceptions.CannotDetermineSpecification(contents)
        return cls(contents, default_specification)

    @classmethod
    def opaque(cls, contents):
        return cls(contents)

    def id(self):
        i = self.contents.get("$id") if isinstance(self.contents, dict) else None
        return i.rstrip("#") if i is not None else None

    def subresources(self):
        return _below(self.contents)


def _below(contents):
    out = []
    if isinstance(contents, dict):
        for k in ("items", "additionalProperties", "not", "contains"):
            if isinstance(contents.get(k), dict):
                out.append(Resource(contents[k]))
        for k in ("properties", "$defs", "patternProperties"):
            out.extend([Resource(v) for v in contents.get(k, {}).values()])
        for k in ("oneOf", "anyOf", "allOf", "prefixItems"):
            out.extend([Resource(v) for v in contents.get(k, [])])
    return out


class Retrieved:
    def __init__(self, value, registry):
        self.value = value
        self.registry = registry


def _fail_to_retrieve(uri):
    raise exceptions.NoSuchResource(uri)


class Registry:
    def __init__(self, resources=None, retrieve=_fail_to_retrieve, uncrawled=()):
        self._resources = dict(resources or {})
        self._retrieve = retrieve
        self._uncrawled = list(uncrawled)

    def __getitem__(self, uri):
        try:
            return self._resources[uri.rstrip("#")]
        except KeyError:
            raise exceptions.NoSuchResource(uri)

    def __contains__(self, uri):
        try:
            self[uri]
        except KeyError:
            return False
        return True

    def get(self, uri, default=None):
        try:
            return self[uri]
        except KeyError:
            return default

    def __iter__(self):
        return iter(list(self._resources))

    def __len__(self):
        return len(self._resources)

    def __rmatmul__(self, new):
        if isinstance(new, Resource):
            new = (new,)
        resources = dict(self._resources)
        uncrawled = list(self._uncrawled)
        for resource in new:
            id = resource.id()
            if id is None:
                raise exceptions.NoInternalID(resource)
            uncrawled.append(id)
            resources[id] = resource
        return Registry(resources, self._retrieve, uncrawled)

    def with_resource(self, uri, resource):
        return Registry({**self._resources, uri: resource}, self._retrieve, self._uncrawled + [uri])

    def with_resources(self, pairs):
        registry = self
        for uri, resource in pairs:
            registry = registry.with_resource(uri, resource)
        return registry

    def with_contents(self, pairs, **kw):
        return self.with_resources([(uri, Resource.from_contents(contents, **kw)) for uri, contents in pairs])

    def contents(self, uri):
        return self._resources[uri.rstrip("#")].contents

    def combine(self, *registries):
        resources = dict(self._resources)
        uncrawled = list(self._uncrawled)
        retrieve = self._retrieve
        for each in registries:
            resources.update(each._resources)
            uncrawled.extend(each._uncrawled)
            if each._retrieve is not _fail_to_retrieve:
                if each._retrieve is not retrieve and retrieve is not _fail_to_retrieve:
                    raise ValueError("Cannot combine registries with conflicting retrieval functions.")
                retrieve = each._retrieve
        return Registry(resources, retrieve, uncrawled)

    def crawl(self):
        resources = dict(self._resources)
        uncrawled = [(uri, resources[uri]) for uri in self._uncrawled]
        while uncrawled:
            uri, resource = uncrawled.pop()
            id = resource.id()
            if id is not None:
                uri = id
                resources[uri] = resource
            uncrawled.extend([(uri, each) for each in resource.subresources()])
        return Registry(resources, self._retrieve)

    def get_or_retrieve(self, uri):
        resource = self._resources.get(uri)
        if resource is not None:
            return Retrieved(resource, self)
        registry = self.crawl()
        resource = registry._resources.get(uri)
        if resource is not None:
            return Retrieved(resource, registry)
        try:
            resource = registry._retrieve(uri)
        except (exceptions.CannotDetermineSpecification, exceptions.NoSuchResource):
            raise
        except Exception:
            raise exceptions.Unretrievable(uri)
        return Retrieved(resource, registry.with_resource(uri, resource))
