"""C13: generation under crashes and disk faults (see DESIGN.md)."""
import gensim


def main(chk):
    gensim.main13(chk)
