"""C02: containers and scoped buffers (see DESIGN.md)."""
import alloccheck


def main(chk):
    alloccheck.main(chk, 'C02', 120000)
