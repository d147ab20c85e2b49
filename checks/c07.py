"""C07: SPMD kernels (see DESIGN.md)."""
import spmdsim


def main(chk):
    spmdsim.main(chk, True)
