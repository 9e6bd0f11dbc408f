import os


class Info:
    __slots__ = ("labels", "nontrivial")

    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = bool(nontrivial)
        self.labels = list(labels)


class Prop:
    """One property: a generator of cases, and an oracle that raises Violation.

    A case is plain JSON data, so that it can be saved, shrunk and replayed.
    """
    quick = 2000
    thorough = 100000
    rule = ""
    assumptions = []
    must_cover = ()  # classes of cases that a full run has to produce, or the check is an error

    def examples(self, tier):
        n = os.environ.get("VERIF_EXAMPLES")
        return int(n) if n else (self.thorough if tier == "thorough" else self.quick)

    def strategy(self):
        raise NotImplementedError

    def check(self, spec, sut):
        raise NotImplementedError
