class Decimal:
    def __init__(self, scale=None, unscaled=None):
        self.scale = scale
        self.unscaled = unscaled
class Date:
    def __init__(self, daysSinceEpoch=None):
        self.daysSinceEpoch = daysSinceEpoch
