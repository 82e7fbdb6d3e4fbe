"""Geometry of the cubed sphere in integer coordinates: the oracle for everything that
crosses a tile edge.

The cube is [0, 2N]^3 with N cells along a tile edge; a cell centre has odd doubled
coordinates, an interface even ones.  Six faces are laid out by two rules read off the
documented tile arrangement of FV3: the right neighbour of an even tile and the top
neighbour of an odd tile are the next tile, glued on without rotation.  Everything else
(the other neighbours, the rotations, which corners do not exist) follows from folding a
point that leaves a face over the edge it leaves by.  No table of neighbours is used.
"""
import functools

import numpy as np

WEST, EAST, NORTH, SOUTH = 0, 1, 2, 3
NORTHWEST, NORTHEAST, SOUTHWEST, SOUTHEAST = 4, 5, 6, 7
# boundary type -> (x direction, y direction)
DIRECTION = {
    WEST: (-1, 0), EAST: (1, 0), NORTH: (0, 1), SOUTH: (0, -1),
    NORTHWEST: (-1, 1), NORTHEAST: (1, 1), SOUTHWEST: (-1, -1), SOUTHEAST: (1, -1),
}


@functools.lru_cache(maxsize=None)
def faces(n):
    """[(origin, ex, ey, normal)] of the six faces, doubled coordinates 0..2n."""
    size = 2 * n
    v = lambda *a: np.array(a, dtype=np.int64)  # noqa: E731
    frame = (v(0, 0, size), v(1, 0, 0), v(0, 1, 0), v(0, 0, 1))
    out = [frame]
    for t in range(5):
        o, ex, ey, nn = out[-1]
        if t % 2 == 0:
            out.append((o + size * ex, -nn, ey, ex))
        else:
            out.append((o + size * ey, ex, -nn, ey))
    return out


def fold(n, tile, a, b):
    """Point at face coordinates (a, b) of a tile, continued over at most one edge.

    Returns (position, direction of +x, direction of +y) as 3-vectors, or None when the
    point is outside in both directions (there is no tile beyond a tile corner)."""
    size = 2 * n
    o, ex, ey, nn = faces(n)[tile]
    a_out, b_out = a < 0 or a > size, b < 0 or b > size
    if a_out and b_out:
        return None
    if a_out:
        if a < 0:
            return o + b * ey + a * nn, nn, ey
        return o + size * ex + b * ey - (a - size) * nn, -nn, ey
    if b_out:
        if b < 0:
            return o + a * ex + b * nn, ex, nn
        return o + a * ex + size * ey - (b - size) * nn, ex, -nn
    return o + a * ex + b * ey, ex, ey


def axis_sign(direction):
    axis = int(np.flatnonzero(direction)[0])
    return axis, int(direction[axis])


def point_id(n, position):
    size = 2 * n + 1
    return int((position[0] * size + position[1]) * size + position[2])


def n_point_ids(n):
    return (2 * n + 1) ** 3


@functools.lru_cache(maxsize=None)
def _folded_tables(n, margin, tile):
    """Arrays over a, b in [-2*margin, 2n + 2*margin]: point id (-1: no such point) and,
    for the +x and +y directions, 3-D axis and sign."""
    size = 2 * n
    length = size + 4 * margin + 1
    ids = np.full((length, length), -1, dtype=np.int64)  # [b, a]
    x_axis = np.zeros((length, length), dtype=np.int64)
    x_sign = np.zeros_like(x_axis)
    y_axis = np.zeros_like(x_axis)
    y_sign = np.zeros_like(x_axis)
    for b in range(-2 * margin, size + 2 * margin + 1):
        for a in range(-2 * margin, size + 2 * margin + 1):
            folded = fold(n, tile, a, b)
            if folded is None:
                continue
            position, tx, ty = folded
            i, j = b + 2 * margin, a + 2 * margin
            if position.min() < 0 or position.max() > size:
                continue  # beyond the neighbouring tile
            ids[i, j] = point_id(n, position)
            x_axis[i, j], x_sign[i, j] = axis_sign(tx)
            y_axis[i, j], y_sign[i, j] = axis_sign(ty)
    return ids, x_axis, x_sign, y_axis, y_sign


def rank_position(rank, layout):
    """(tile, j, i) of a rank in row-major order within its tile."""
    per_tile = layout * layout
    tile, within = divmod(rank, per_tile)
    j, i = divmod(within, layout)
    return tile, j, i


def rank_window(rank, layout, cells, halo, y_interface, x_interface):
    """Doubled face coordinates of every point of a rank's array including halo."""
    tile, j, i = rank_position(rank, layout)

    def coords(index, interface):
        k = np.arange(-halo, cells + (1 if interface else 0) + halo)
        return 2 * (index * cells + k) + (0 if interface else 1)

    return tile, coords(j, y_interface), coords(i, x_interface)


def expected_points(rank, layout, cells, halo, y_interface, x_interface):
    """Folded tables restricted to a rank's window, shapes [y, x]."""
    n = layout * cells
    tile, bs, cols = rank_window(rank, layout, cells, halo, y_interface, x_interface)
    margin = halo + 1
    tables = _folded_tables(n, margin, tile)
    sel = np.ix_(bs + 2 * margin, cols + 2 * margin)
    return tuple(t[sel] for t in tables)


@functools.lru_cache(maxsize=None)
def _centres(layout):
    """3-D position of the centre of every rank (one cell per rank) -> rank."""
    out = {}
    for rank in range(6 * layout * layout):
        t, j, i = rank_position(rank, layout)
        out[tuple(int(k) for k in fold(layout, t, 2 * i + 1, 2 * j + 1)[0])] = rank
    return out


@functools.lru_cache(maxsize=None)
def neighbour(rank, layout, boundary_type):
    """Geometric neighbour of a rank across an edge or corner, and the number of
    clockwise rotations data undergoes when moving there; None at a tile corner."""
    dx, dy = DIRECTION[boundary_type]
    tile, j, i = rank_position(rank, layout)
    # one cell per rank and five points along it: use n = layout, probe the cell centre
    n = layout
    a, b = 2 * i + 1 + 2 * dx, 2 * j + 1 + 2 * dy
    folded = fold(n, tile, a, b)
    if folded is None:
        return None
    position, tx, ty = folded
    other = _centres(layout).get(tuple(int(k) for k in position))
    if other is not None:
        t2, j2, i2 = rank_position(other, layout)
        p2, ex2, ey2 = fold(n, t2, 2 * i2 + 1, 2 * j2 + 1)
        # clockwise rotations that take the sender's axes to the receiver's axes:
        # where the receiver's +y points, seen in the sender's (continued) axes
        cx, cy = int(ey2 @ tx), int(ey2 @ ty)
        rotations = {(0, 1): 0, (1, 0): 1, (0, -1): 2, (-1, 0): 3}[(cx, cy)]
        return other, rotations
    raise AssertionError("no neighbour found")
