"""C10: device and paired memory (see DESIGN.md)."""
import devsim


def main(chk):
    devsim.main(chk)
