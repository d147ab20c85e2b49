"""C03: masked loads and stores (see DESIGN.md)."""
import memsim


def main(chk):
    memsim.main(chk, 'masked', 9000, [
        'x86-64 host; the levels the host CPU lacks are skipped (listed levels ran)',
        'a single machine instruction is the unit of interleaving: tearing '
        'inside one vector instruction is not modelled',
        'code generated by g++ -O2; other compilers are not examined'])
