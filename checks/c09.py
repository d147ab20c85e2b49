"""C09: array expressions (see DESIGN.md)."""
import tetsim


def main(chk):
    tetsim.main(chk)
