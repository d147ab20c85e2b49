"""C04: plain, interleaved, logical, gather and scatter accesses."""
import memsim


def main(chk):
    memsim.main(chk, 'other', 15000, [
        'x86-64 host; the levels the host CPU lacks are skipped (listed levels ran)',
        'the lane order chosen by interleaved loads is read off a probe load '
        '(the documentation leaves it open); it must be one order for all '
        'members and the stores must undo it',
        'a single machine instruction is the unit of interleaving'])
