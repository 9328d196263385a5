"""Driving the real local search operators, one move at a time."""

from mc import families as F
from mc import model as M


class Machine:
    """A real search state plus all supported operators for one instance."""

    def __init__(self, sp, data=None, only=None):
        import pyvrp as pv
        from pyvrp import search as S
        from pyvrp.search import _search as RAW

        self.pv, self.S, self.RAW = pv, S, RAW
        self.sp = sp
        self.data = data or M.build(sp)
        every = [
            getattr(RAW, name)
            for name in dir(RAW)
            if isinstance(getattr(RAW, name), type)
            and issubclass(
                getattr(RAW, name), (S.UnaryOperator, S.BinaryOperator)
            )
            and getattr(RAW, name)
            not in (S.UnaryOperator, S.BinaryOperator)
        ]
        self.classes = [
            cls for cls in sorted(every, key=lambda c: c.__name__)
            if cls.supports(self.data)
            and (only is None or cls.__name__ in only)
        ]
        self.ops = [cls(self.data) for cls in self.classes]
        self.unary = [isinstance(op, S.UnaryOperator) for op in self.ops]
        self.state = RAW.Solution(self.data)
        self.acts = {}

    def act(self, text):
        if text not in self.acts:
            self.acts[text] = self.pv.Activity(text)
        return self.acts[text]

    def load(self, sol):
        self.state.load(sol)
        for k, op in enumerate(self.ops):
            if hasattr(op, "init"):
                op.init(self.state)
            else:
                self.ops[k] = self.classes[k](self.data)

    def node(self, name):
        """name: activity text, or "start <k>" for route k's start depot."""
        if name.startswith("start"):
            return self.state.routes[int(name[6:])][0]
        return self.state[self.act(name)]

    def moves(self):
        """All (operator index, U, V) local search may ask for here."""
        sp = self.sp
        us = [f"C{i}" for i in range(len(sp["clients"]))]
        us += [f"L{i}" for i in range(len(sp["ships"]))]
        vs, seen_empty = [], set()
        for k, route in enumerate(self.state.routes):
            if len(route) == 2:
                # Only the first empty vehicle of each type is ever tried.
                if route.vehicle_type not in seen_empty:
                    seen_empty.add(route.vehicle_type)
                    vs.append(f"start {k}")
                continue
            if not route[1].is_depot():
                vs.append(f"start {k}")
            for pos in range(1, len(route) - 1):
                if not route[pos].is_depot():
                    vs.append(str(route[pos].activity))
        for k, one in enumerate(self.unary):
            for u in us:
                if one:
                    yield k, u, None
                    continue
                for v in vs:
                    if u == v or (u[0] == "L" and v == "U" + u[1:]):
                        continue
                    yield k, u, v

    def evaluate(self, move, ev):
        k, u, v = move
        if v is None:
            return self.ops[k].evaluate(self.node(u), ev)
        return self.ops[k].evaluate(self.node(u), self.node(v), ev)

    def apply(self, move):
        k, u, v = move
        if v is None:
            self.ops[k].apply(self.node(u))
        else:
            self.ops[k].apply(self.node(u), self.node(v))
        for route in self.state.routes:
            route.update()

    def name(self, move):
        k, u, v = move
        return f"{self.classes[k].__name__}({u}, {v})"


def canon(routes):
    return sorted((k, tuple(acts)) for k, acts in routes)
