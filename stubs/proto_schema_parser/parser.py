from recap_analysis import hook
class Parser:
    def parse(self, text):
        return hook("proto.parse", text)
