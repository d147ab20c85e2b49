"""C05: operators are re-entrant (see DESIGN.md)."""
import opsim


def main(chk):
    opsim.main(chk)
