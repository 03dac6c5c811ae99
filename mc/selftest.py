"""Consistency of the reference semantics with themselves and with published counts; run once by setup."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mc import ref


def main():
    assert [len(ref.dags(n)) for n in (1, 2, 3, 4)] == [1, 3, 25, 543]
    assert [len(ref.unlabelled_dags(n)) for n in (1, 2, 3, 4, 5)] == [1, 2, 6, 31, 302]
    assert [len(ref.mec_table(n)) for n in (1, 2, 3, 4)] == [1, 2, 11, 185]
    k = 0
    for n in (2, 3, 4):
        for par in ref.dags(n):
            for x in range(n):
                for y in range(n):
                    if x == y:
                        continue
                    for z in ref.subsets([v for v in range(n) if v not in (x, y)]):
                        m = sum(1 << v for v in z)
                        assert ref.dsep_paths(par, x, y, m) == ref.dsep_moral(par, 1 << x, 1 << y, m)
                        k += 1
    # an equivalence class is exactly the set of DAGs with the same separations
    for n in (2, 3):
        seen = {}
        for key, members in ref.mec_table(n).items():
            for par in members:
                s = tuple(ref.dsep_moral(par, 1 << x, 1 << y, sum(1 << v for v in z))
                          for x in range(n) for y in range(x)
                          for z in ref.subsets([v for v in range(n) if v not in (x, y)]))
                assert seen.setdefault(s, key) == key
    for n in (2, 3, 4):
        for par in ref.dags(n):
            assert ref.cpdag(par) == ref.cpdag_table(n)[par]
            assert par in ref.extensions(n, ref.cpdag(par))
            assert ref.essential(par) == ref.cpdag_table(n)[par]
    for par in ref.topo_dags(5)[::7]:
        assert ref.essential(par) == ref.cpdag(par)
    for n in (4, 5, 6):
        for _, par in ref.families(n):
            assert ref.essential(par) == ref.cpdag(par)
    for n in (4, 5, 6, 9):
        for par in ref.sparse(n):
            assert ref.essential_sparse(par) == ref.essential(par)
            if n > 5:
                continue
            full, base = ref.parents_to_code(par), ref.collider_arrows(par)
            for e in ref.edges_of(par):
                got = ref.spread(par, base | {e})
                left = [m for m in map(ref.parents_to_code, ref.class_members(par))
                        if all(m[i] == full[i] for i, p in enumerate(ref.pairs(n)) if p in (e, e[::-1]))]
                for (i, j), marks in zip(ref.pairs(n), zip(*left)):
                    assert (len(set(marks)) == 1) == (marks[0] == 0 or (i, j) in got or (j, i) in got)
    for par in ref.topo_dags(5)[::3]:
        if ref.triangle_free(par):
            assert ref.essential_sparse(par) == ref.essential(par)
    print(f'reference model self-test passed ({k} separation queries agree between the two definitions)')


main()
