class RT:
    """A run-time contract: gen(rng) makes a JSON-able case inside the precondition,
    check(case) runs the real code and returns None or a description of the violated clause."""
    def __init__(self, name, gen, check, weight=1, targets=()):
        self.name, self.gen, self.check, self.weight, self.targets = name, gen, check, weight, targets


class Skip(Exception):
    """Case outside the precondition."""


class Fail(Exception):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)
