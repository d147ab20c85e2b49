"""C06: printing (see DESIGN.md)."""
import printsim


def main(chk):
    printsim.main(chk)
