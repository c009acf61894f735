class NoSuchResource(KeyError):
    pass


class NoInternalID(Exception):
    pass


class Unretrievable(KeyError):
    pass


class CannotDetermineSpecification(Exception):
    pass
