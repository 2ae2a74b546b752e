"""Reference models for load analysis, written from the definitions (quadratic, no cleverness)."""
import numpy as np


def cross(x, v):
    """Indices i such that the signal goes from one side of v to the other between i and the first sample after i that
    is off the level; the leading samples equal to v belong to the other side of whatever comes first."""
    out, last = [], 0
    for i, y in enumerate(x):
        s = int(y > v) - int(y < v)
        if s == 0:
            continue
        if s != last and i > 0:
            out.append(i - 1)
        last = s
    return out


def cross_kind(x, v, kind):
    ind = cross(x, v)
    if kind in (None, 'du', 'all'):
        return ind
    up = {i: x[i + 1] > v for i in ind}
    if kind == 'u':
        return [i for i in ind if up[i]]
    if kind == 'd':
        return [i for i in ind if not up[i]]
    want_up = kind in ('uw', 'cw')
    while ind and up[ind[0]] != want_up:
        ind = ind[1:]
    odd = kind in ('dw', 'uw')
    if ind and (len(ind) % 2 == 1) != odd:
        ind = ind[:-1]
    return ind


def extrema(x):
    return [i + 1 for i in cross(np.diff(x), 0)]


def turning_points(x, kind=None):
    e = extrema(x)
    if len(e) < 2:
        return None
    n = len(x)
    if kind == 'astm' or x[e[0]] > x[e[1]]:
        return [0] + e + [n - 1]
    return e + [n - 1]


def rfc_pairs(tp):
    """Rychlik's definition. tp: turning points (values). Returns [(i_min, i_max)] for each maximum that has a
    minimum before it; a leading maximum is ignored."""
    tp = list(tp)
    t0 = 1 if tp[0] > tp[1] else 0
    maxima = list(range(t0 + 1, len(tp), 2))
    pairs = []
    for m in maxima:
        M = tp[m]
        # to the left until the level M is exceeded
        left = []
        j = m - 1
        while j >= t0 and not (tp[j] > M):
            if (j - t0) % 2 == 0:
                left.append(j)
            j -= 1
        # of equal minima the one closest to the maximum
        li = min(left, key=lambda k: (tp[k], -k))
        right, j, exceeded = [], m + 1, False
        while j < len(tp):
            if (j - t0) % 2 == 1:
                if tp[j] >= M:
                    exceeded = True
                    break
            else:
                right.append(j)
            j += 1
        if not exceeded or not right:
            pairs.append((li, m))
            continue
        ri = min(right, key=lambda k: (tp[k], -k))
        pairs.append((li, m) if tp[li] >= tp[ri] else (ri, m))
    return pairs


def rfc_filter_indices(tp, h):
    idx = []
    for a, b in rfc_pairs(tp):
        if tp[b] - tp[a] >= h:
            idx += [a, b]
    return sorted(idx)


def zigzag(x, h, strict):
    """Rainflow (hysteresis) filter by its definition: a reversal is confirmed as soon as the signal has come back by
    at least h (strict: by more than h) from the running extreme.  Returns indices."""
    def far(d):
        return d > h if strict else d >= h
    out = [0]
    direction, ext = 0, 0
    for i in range(1, len(x)):
        d = x[i] - x[ext]
        if direction == 0:
            if far(-d):
                direction, ext = -1, i
            elif far(d):
                direction, ext = 1, i
        elif direction == 1:
            if far(-d):
                out.append(ext)
                direction, ext = -1, i
            elif d >= 0:
                ext = i
        else:
            if far(d):
                out.append(ext)
                direction, ext = 1, i
            elif d <= 0:
                ext = i
    return out, ext, direction


def astm(tp):
    """ASTM E1049-85 5.4.4 rainflow counting (three-point), an independent formulation with a list as the stack.
    Returns [(range, mean, count, i_start, i_end)]."""
    stack, out = [], []
    for k, v in enumerate(tp):
        stack.append((v, k))
        while len(stack) >= 3:
            X = abs(stack[-1][0] - stack[-2][0])
            Y = abs(stack[-2][0] - stack[-3][0])
            if X < Y:
                break
            a, b = stack[-3], stack[-2]
            if len(stack) == 3:            # Y contains the starting point: half cycle
                out.append((Y, (a[0] + b[0]) / 2, 0.5, a[1], b[1]))
                stack.pop(0)
            else:
                out.append((Y, (a[0] + b[0]) / 2, 1.0, a[1], b[1]))
                last = stack.pop()
                stack.pop()
                stack.pop()
                stack.append(last)
    for a, b in zip(stack[:-1], stack[1:]):
        out.append((abs(b[0] - a[0]), (a[0] + b[0]) / 2, 0.5, a[1], b[1]))
    return out
