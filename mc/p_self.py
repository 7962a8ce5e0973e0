"""What the explorer itself has to get right (check.py --self-test)."""
from core import Case

ASSUMPTIONS = []


def cases(tier):
    def product(x):
        x.outcome((x.choose(3), x.choose(4), x.choose(2)))
    yield Case("product", product)

    def bounded(x):
        # Subsets of 6 with at most 2 elements: 1 + 6 + 15.
        x.outcome(tuple(x.choose(2, [0, 1]) for _ in range(6)))
    yield Case("bounded", bounded, bound=2, split=5)

    def lost_update(x):
        # Two threads increment a counter in two steps each.
        total, local, position = 0, [None, None], [0, 0]
        while min(position) < 2:
            enabled = [n for n in (0, 1) if position[n] < 2]
            n = x.pick(enabled)
            if position[n] == 0:
                local[n] = total
            else:
                total = local[n] + 1
            position[n] += 1
        x.state((total,))
        x.check(total == 2, "lost update")
    yield Case("lost-update", lost_update, split=4)
