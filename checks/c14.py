"""C14: fetching Sleef (see DESIGN.md)."""
import fetchsim


def main(chk):
    fetchsim.main(chk)
