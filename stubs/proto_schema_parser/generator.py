from recap_analysis import hook
class Generator:
    def generate(self, file):
        return hook("proto.generate", file)
