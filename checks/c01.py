"""C01: aligned allocation (see DESIGN.md)."""
import alloccheck


def main(chk):
    alloccheck.main(chk, 'C01', 5000)
