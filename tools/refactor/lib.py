"""A refactoring: named textual edits of /repo that keep the behaviour."""
ALL = []


class Ref:
    def __init__(self, name, file=None):
        self.name, self.file, self.edits = name, file, []
        ALL.append(self)

    def r(self, old, new, n=1, file=None):
        self.edits.append((file or self.file, old, new, n))
        return self

    def app(self, text, file=None):
        self.edits.append((file or self.file, None, text, 0))
        return self


class Ed(Ref):
    """Several edits of one file, applied together."""

    def __init__(self, file):
        super().__init__("all_" + "_".join(file.split("/")[-3:])[:-3] + "_%d" % len(ALL), file)

    def w(self):
        return self


def ed(file, *pairs):
    e = Ed("crates/" + file)
    for a, b in pairs:
        e.r(a, b)
