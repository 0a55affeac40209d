"""setup_cmd: the framework imports, and the reference agrees with itself."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.pycache_prefix = '/nonexistent/rv'
sys.path.insert(0, '/repo')
sys.path.insert(0, ROOT)

from fractions import Fraction  # noqa: E402

from rv import cells, gen, ref, runner, source  # noqa: E402

for seed in range(200):
    src = source.fresh(seed)
    a, b = gen.regions(src)
    assert ref.error(a) is None and ref.error(b) is None
    # the relation of the reference mirrors under exchange of the operands
    assert ref.relate(b, a) == ref.COMPLEMENT[ref.relate(a, b)]
    assert source.replaying(src.choices) is not None
for seed in range(150):
    # the two models agree
    src = source.fresh(seed)
    w, h = src.int(1, 4), src.int(1, 4)
    cells_a, cells_b = (cells.some_cells(src, w, h) for _ in range(2))
    a, b = cells.region(cells_a), cells.region(cells_b)
    assert ref.error(a) is None
    assert cells.cells_of(ref.polygons(a)) == cells_a
    assert ref.relate(a, b) == cells.relate_regions(cells_a, cells_b)
    edges_c, edges_d = (cells.some_edges(src, w, h) for _ in range(2))
    c, d = cells.linear(edges_c, seed), cells.linear(edges_d, seed + 1)
    assert ref.error(c) is None
    assert cells.edges_of(ref.segments(c)) == (edges_c, 0)
    assert ref.relate(c, d) == cells.relate_linears(edges_c, edges_d)
    assert ref.relate(c, a) == cells.relate_mixed(edges_c, cells_a)
    for _ in range(5):
        p = (src.int(-1, 2 * w + 1), src.int(-1, 2 * h + 1))
        q = (Fraction(p[0], 2), Fraction(p[1], 2))
        assert ref.locate(a, q) == cells.locate_region(cells_a, p)
        assert ref.locate(c, q) == cells.locate_linear(edges_c, p)
for name in sorted(os.listdir(os.path.join(ROOT, 'rv', 'props'))):
    if name[0] == 'c' and name[1:3].isdigit():
        prop = runner.load(name[:-3])
        case = prop.make(source.fresh(1))
        assert runner.parse_case(runner.case_text(case)) == case, name
print('selftest passed')
