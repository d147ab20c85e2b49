"""C12: deterministic generation (see DESIGN.md)."""
import gensim


def main(chk):
    gensim.main12(chk)
