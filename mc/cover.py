"""Covering arrays: every combination of the values of any t options occurs in
some row. Deterministic."""
import itertools


def rows(options, t):
    """options: {name: [values]}; yields dicts. Values are used by index."""
    names = list(options)
    size = [len(options[n]) for n in names]
    t = min(t, len(names))
    todo = {}
    for combo in itertools.combinations(range(len(names)), t):
        for vals in itertools.product(*[range(size[i]) for i in combo]):
            todo[combo, vals] = None
    others = {i: [c for c in itertools.combinations(
        [j for j in range(len(names)) if j != i], t - 1)]
        for i in range(len(names))}
    out = []
    while todo:
        combo, vals = next(iter(todo))
        row = dict(zip(combo, vals))
        for i in range(len(names)):
            if i in row:
                continue
            best, gain = 0, -1
            for v in range(size[i]):
                # prefer the rarest so that values spread evenly
                g = 0
                for c in others[i]:
                    if all(j in row for j in c):
                        key = sorted([(i, v)] + [(j, row[j]) for j in c])
                        if (tuple(k for k, _ in key),
                                tuple(x for _, x in key)) in todo:
                            g += 1
                if g > gain or (g == gain and (len(out) + i) % size[i] == v):
                    best, gain = v, g
            row[i] = best
        for c in itertools.combinations(range(len(names)), t):
            todo.pop((c, tuple(row[i] for i in c)), None)
        out.append({names[i]: options[names[i]][row[i]]
                    for i in range(len(names))})
    return out
