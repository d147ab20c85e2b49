"""C11: values of kernels and array expressions (see DESIGN.md)."""
import valsim


def main(chk):
    valsim.main(chk)
