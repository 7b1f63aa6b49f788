"""Rules: relations between sites that a property needs, evaluated on the current program."""


class Result:
    def __init__(self):
        self.n = 0
        self.sites = []
        self.bad = []
        self.und = []

    def site(self, text):
        self.n += 1
        self.sites.append(text)

    def fail(self, loc, msg):
        self.bad.append((loc, msg))


FOR = {}
MIN = {}


def rule(*props, least=1):
    def deco(fn):
        for p in props:
            FOR.setdefault(p, []).append(fn)
        MIN[fn.__name__] = least
        return fn
    return deco
