"""Generic ways to make scenarios smaller."""


def drop_chunks(items):
    """items without ever smaller chunks."""
    n = len(items)
    size = n // 2
    while size >= 1:
        for start in range(0, n, size):
            yield items[:start] + items[start + size:]
        size //= 2


def edits(sc, lists=("program",), defaults=()):
    for name in lists:
        if sc.get(name):
            for cand in drop_chunks(list(sc[name])):
                yield dict(sc, **{name: cand})
    for name, value in defaults:
        if name in sc and sc[name] != value:
            yield dict(sc, **{name: value})


def simple_number(text):
    for cand in ("0", "1", "10"):
        if text != cand:
            yield cand
