"""Declaring goals."""


class Goal:
    def __init__(self, name, statement, fn, budget=120, max_paths=4000, timeout_ms=4000, cost=0):
        self.name = name
        self.statement = statement
        self.fn = fn
        self.budget = budget
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.cost = cost              # slow ones are started first


def goals():
    """a list, and a decorator which adds to it"""
    out = []

    def goal(statement, **kw):
        def deco(fn):
            out.append(Goal(fn.__name__, statement, fn, **kw))
            return fn
        return deco
    return out, goal
