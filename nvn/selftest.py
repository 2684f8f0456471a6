"""Sanity checks of the specifications themselves (no code of /repo involved)."""
import itertools
from .props import zcurve


def main():
    n = 0
    for nd, G in ((1, 4), (2, 4), (3, 2), (3, 3)):
        for S in range(G + 1):
            for sizes in itertools.product(range(1 << S, (1 << G) + 1, 1 << S), repeat=nd):
                if nd == 3 and G == 3 and S == 0 and sum(sizes) % 3:
                    continue
                ref = zcurve.reference_order(sizes, G)
                got = [zcurve.decode(z, sizes, S, G) for z in range(len(ref))]
                assert got == ref, (sizes, S, G)
                n += 1
    print('zcurve plain formulation = Z-order restricted to the valid indices on %d size vectors' % n)


if __name__ == '__main__':
    main()
