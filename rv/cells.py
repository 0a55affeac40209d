"""Pixel geometry: regions made of cells, linears made of edges, of one grid.

Set operations, relations and location are set algebra on cells and unit edges
here, linear in the size and sharing nothing with ref.Arrangement or rene.
A cell set is a frozenset of (x, y), lower left corners.  An edge set is a
frozenset of (x, y, d), d = 0 for (x, y)-(x + 1, y), 1 for (x, y)-(x, y + 1).
"""
from __future__ import annotations

import random

STEPS = ((1, 0), (0, 1), (-1, 0), (0, -1))


# ------------------------------------------------------------------ regions

def boundary(cells):
    """Unit edges between a cell of the set and one that is not."""
    result = set()
    for x, y in cells:
        if (x, y - 1) not in cells:
            result.add((x, y, 0))
        if (x, y + 1) not in cells:
            result.add((x, y + 1, 0))
        if (x - 1, y) not in cells:
            result.add((x, y, 1))
        if (x + 1, y) not in cells:
            result.add((x + 1, y, 1))
    return result


def components(cells):
    """Sets of cells connected through sides."""
    rest = set(cells)
    result = []
    while rest:
        stack = [min(rest)]
        rest.discard(stack[0])
        part = set(stack)
        while stack:
            x, y = stack.pop()
            for dx, dy in STEPS:
                other = (x + dx, y + dy)
                if other in rest:
                    rest.discard(other)
                    part.add(other)
                    stack.append(other)
        result.append(part)
    return result


def pinched(cells):
    """Whether cells meet at a corner only."""
    return any((x + 1, y + d) in cells and (x + 1, y) not in cells
               and (x, y + d) not in cells
               for x, y in cells for d in (1, -1))


def trace(cells):
    """(border, holes) of a side-connected set of cells."""
    # directed edges with the set to the left: start -> directions
    out = {}
    for x, y in cells:
        if (x, y - 1) not in cells:
            out.setdefault((x, y), set()).add(0)
        if (x + 1, y) not in cells:
            out.setdefault((x + 1, y), set()).add(1)
        if (x, y + 1) not in cells:
            out.setdefault((x + 1, y + 1), set()).add(2)
        if (x - 1, y) not in cells:
            out.setdefault((x, y + 1), set()).add(3)
    border, holes = None, []
    while out:
        start = min(out)
        direction = min(out[start])
        at, ring, area = start, [], 0
        while True:
            out[at].discard(direction)
            if not out[at]:
                del out[at]
            dx, dy = STEPS[direction]
            ring.append((at, direction))
            area += at[0] * (at[1] + dy) - (at[0] + dx) * at[1]
            at = (at[0] + dx, at[1] + dy)
            if at == start:
                break
            # the right turn keeps to the same part of the complement
            direction = next(d for d in ((direction - 1) % 4, direction,
                                         (direction + 1) % 4)
                             if d in out.get(at, ()))
        vertices = [p for k, (p, d) in enumerate(ring) if d != ring[k - 1][1]]
        if area > 0:
            assert border is None
            border = vertices
        else:
            holes.append(vertices)
    return border, holes


def region(cells):
    """Spec of the cells."""
    polys = [trace(part) for part in components(cells)]
    if not polys:
        return ('E',)
    return ('P', *polys[0]) if len(polys) == 1 else ('MP', polys)


def cells_of(polys):
    """Cells within axis-parallel rings, by parity over columns.

    None when a ring is no lattice ring.
    """
    columns = {}
    for border, holes in polys:
        for ring in (border, *holes):
            for (x0, y0), (x1, y1) in zip(ring, [*ring[1:], ring[0]]):
                if (x0 != x1 and y0 != y1) or any(
                        int(v) != v for v in (x0, y0, x1, y1)):
                    return None
                for x in range(int(min(x0, x1)), int(max(x0, x1))):
                    columns.setdefault(x, []).append(int(y0))
    result = set()
    for x, ys in columns.items():
        ys.sort()
        for low, high in zip(ys[::2], ys[1::2]):
            result.update((x, y) for y in range(low, high))
    return frozenset(result)


# ------------------------------------------------------------------ linears

def ends(edge):
    x, y, d = edge
    return (x, y), (x + 1 - d, y + d)


def edges_of(segs):
    """(edges, duplicates) of axis-parallel lattice segments, or None."""
    result, count = set(), 0
    for (x0, y0), (x1, y1) in segs:
        if (x0 != x1 and y0 != y1) or any(
                int(v) != v for v in (x0, y0, x1, y1)):
            return None
        x0, x1 = sorted((int(x0), int(x1)))
        y0, y1 = sorted((int(y0), int(y1)))
        for x in range(x0, x1):
            result.add((x, y0, 0))
            count += 1
        for y in range(y0, y1):
            result.add((x0, y, 1))
            count += 1
    return frozenset(result), count - len(result)


def crossing(edges, x, y):
    return all(e in edges for e in ((x, y, 0), (x - 1, y, 0), (x, y, 1),
                                    (x, y - 1, 1)))


def runs(edges, seed):
    """Spec of the edges: maximal runs, cut at crossings and at random."""
    rng = random.Random(seed)
    cut = rng.choice((0, 0, .2, 1))
    segs = []
    for edge in sorted(edges):
        x, y, d = edge
        if (x - 1 + d, y - d, d) in edges:
            continue
        start = at = (x, y)
        while True:
            at = (at[0] + 1 - d, at[1] + d)
            following = (*at, d)
            if following not in edges:
                break
            if crossing(edges, *at) or rng.random() < cut:
                segs.append((start, at))
                start = at
        segs.append((start, at))
    if not segs:
        return ('E',)
    return ('S', *segs[0]) if len(segs) == 1 else ('M', segs)


# ---------------------------------------------------------------- relations

def corners(edges):
    return {p for edge in edges for p in ends(edge)}


def closed_points(cells):
    return {(x + i, y + j) for x, y in cells for i in (0, 1) for j in (0, 1)}


def relate_regions(a, b):
    if not a or not b:
        return 'DISJOINT' if a or b else 'EQUAL'
    if a == b:
        return 'EQUAL'
    if not a & b:
        return ('TOUCH' if closed_points(a) & closed_points(b)
                else 'DISJOINT')
    edges_a, edges_b = boundary(a), boundary(b)
    touch = bool(corners(edges_a) & corners(edges_b))
    if a < b:
        if not touch:
            return 'WITHIN'
        return 'COMPONENT' if edges_a <= edges_b else 'ENCLOSED'
    if b < a:
        if not touch:
            return 'COVER'
        return 'COMPOSITE' if edges_b <= edges_a else 'ENCLOSES'
    return 'OVERLAP'


def around(edges):
    """Directions present at every lattice point."""
    result = {}
    for edge in edges:
        p, q = ends(edge)
        d = edge[2]
        result.setdefault(p, set()).add(d)
        result.setdefault(q, set()).add(d + 2)
    return result


def relate_linears(a, b):
    if not a or not b:
        return 'DISJOINT' if a or b else 'EQUAL'
    if a == b:
        return 'EQUAL'
    if a < b:
        return 'COMPONENT'
    if b < a:
        return 'COMPOSITE'
    if a & b:
        return 'OVERLAP'
    first, second = around(a), around(b)
    common = first.keys() & second.keys()
    if any({frozenset(first[p]), frozenset(second[p])}
           == {frozenset((0, 2)), frozenset((1, 3))} for p in common):
        return 'CROSS'
    return 'TOUCH' if common else 'DISJOINT'


def sides(edge):
    """The two cells next to an edge."""
    x, y, d = edge
    return ((x, y), (x, y - 1)) if d == 0 else ((x, y), (x - 1, y))


def clip(edges, cells):
    """Edges of the closed region."""
    return frozenset(e for e in edges if any(c in cells for c in sides(e)))


def relate_mixed(edges, cells):
    if not edges or not cells:
        return 'DISJOINT' if edges or cells else 'EQUAL'
    held = [sum(c in cells for c in sides(e)) for e in edges]
    if 2 in held and 0 in held:
        return 'CROSS'
    border = corners(boundary(cells))
    touch = bool(corners(edges) & border)
    if 2 in held:
        return 'ENCLOSED' if touch else 'WITHIN'
    if 0 in held:
        return 'TOUCH' if touch else 'DISJOINT'
    return 'COMPONENT'


# ----------------------------------------------------------------- location
# points in half units: even coordinates are lattice lines

def locate_region(cells, p):
    (x, i), (y, j) = divmod(p[0], 2), divmod(p[1], 2)
    near = [(x - u, y - v) in cells
            for u in ((0,) if i else (0, 1)) for v in ((0,) if j else (0, 1))]
    return 'I' if all(near) else 'B' if any(near) else 'E'


def locate_linear(edges, p):
    (x, i), (y, j) = divmod(p[0], 2), divmod(p[1], 2)
    if i and j:
        return 'E'
    if i:
        near = ((x, y, 0),)
    elif j:
        near = ((x, y, 1),)
    else:
        near = ((x, y, 0), (x - 1, y, 0), (x, y, 1), (x, y - 1, 1))
    return 'B' if any(e in edges for e in near) else 'E'


# --------------------------------------------------------------- generation

def rectangles(src, w, h, count):
    result = []
    for _ in range(count):
        x0, x1 = sorted((src.below(w + 1), src.below(w + 1)))
        y0, y1 = sorted((src.below(h + 1), src.below(h + 1)))
        result.append({(x, y) for x in range(x0, x1 + (x0 == x1))
                       for y in range(y0, y1 + (y0 == y1))})
    return result


def some_cells(src, w, h):
    """Cell set of one of several textures within w x h."""
    every = [(x, y) for x in range(w) for y in range(h)]
    kind = src.below(9)
    if kind == 0:
        result = set()
        for part in rectangles(src, w, h, src.int(1, 9)):
            result |= part
    elif kind == 1:
        result = set()
        for part in rectangles(src, w, h, src.int(2, 12)):
            result ^= part
    elif kind == 2:
        rng = random.Random(src.below(1 << 16))
        fill = src.choice((.5, .3, .7, .1, .9, .97))
        result = {c for c in every if rng.random() < fill}
    elif kind == 3:  # checkers
        s, t = src.int(1, 3), src.int(1, 3)
        result = {(x, y) for x, y in every if (x // s + y // t) % 2 == 0}
    elif kind == 4:  # nested frames
        s = src.int(1, 2)
        result = {(x, y) for x, y in every
                  if min(x, y, w - 1 - x, h - 1 - y) // s % 2 == 0}
    elif kind == 5:  # teeth
        s = src.int(1, 2)
        result = {(x, y) for x, y in every if y == 0 or x // s % 2 == 0}
        if src.bool():
            result = {(x, y) for x, y in every if x == 0 or y // s % 2 == 0}
    elif kind == 6:  # islands apart
        s = src.int(2, 3)
        result = {(x, y) for x, y in every if x % s == 0 and y % s == 0}
    elif kind == 7:  # staircase
        s = src.int(1, 3)
        result = {(x, y) for x, y in every if abs(x - y) < s}
    else:  # spiral of width 1
        result, x, y, d = set(), 0, 0, 0
        for length in spiral_lengths(w, h):
            for _ in range(length):
                result.add((x, y))
                x, y = x + STEPS[d][0], y + STEPS[d][1]
            d = (d + 1) % 4
        result &= set(every)
    if src.chance(1, 4):
        result ^= rectangles(src, w, h, 1)[0]
    return frozenset(result or {(0, 0)})


def spiral_lengths(w, h):
    yield w - 1
    a, b = h - 1, w - 1
    while a > 0 and b > 0:
        yield a
        yield b
        a, b = a - 2, b - 2


def some_edges(src, w, h):
    kind = src.below(5)
    if kind == 0:
        result = set(boundary(some_cells(src, w, h)))
    elif kind == 1:
        rng = random.Random(src.below(1 << 16))
        fill = src.choice((.5, .2, .8))
        result = {(x, y, d) for x in range(w + 1) for y in range(h + 1)
                  for d in (0, 1) if rng.random() < fill}
    elif kind == 2:  # long lines
        result = set()
        for _ in range(src.int(1, 9)):
            x, y, d = src.below(w + 1), src.below(h + 1), src.below(2)
            for k in range(src.int(1, max(w, h))):
                result.add((x + k * (1 - d), y + k * d, d))
    elif kind == 3:  # bars
        d, s = src.below(2), src.int(1, 3)
        result = {(x, y, d) for x in range(w + 1) for y in range(h + 1)
                  if (x if d else y) % s == 0}
    else:
        cells = some_cells(src, w, h)
        inner = {e for c in cells for e in ((*c, 0), (*c, 1))}
        result = inner if src.bool() else inner - boundary(cells)
    if src.chance(1, 3):
        result ^= boundary(rectangles(src, w, h, 1)[0])
    result = {(x, y, d) for x, y, d in result}
    return frozenset(result or {(0, 0, 0)})


def single_ring(edges):
    """Vertices of the contour the edges make up, or None."""
    near = {}
    for edge in edges:
        p, q = ends(edge)
        near.setdefault(p, []).append(q)
        near.setdefault(q, []).append(p)
    if any(len(others) != 2 for others in near.values()):
        return None
    start = min(near)
    ring, back = [start], near[start][0]
    while True:
        others = near[ring[-1]]
        following = others[0] if others[1] == back else others[1]
        if following == start:
            break
        back = ring[-1]
        ring.append(following)
    if len(ring) != len(edges):
        return None
    n = len(ring)
    return [ring[i] for i in range(n)
            if (ring[i - 1][0] - ring[(i + 1) % n][0])
            * (ring[i - 1][1] - ring[(i + 1) % n][1])]


def linear(edges, seed):
    """Spec of the edges, a contour when they make up one (mostly)."""
    ring = single_ring(edges) if edges and seed % 4 else None
    return ('C', ring) if ring is not None else runs(edges, seed)
