"""C03: no data race in any parallel region."""
from .. import fieldrun
from ..common import Result


def improved(r, a):
    """not decided: the colouring of the rectangle-improved heat bath, a table filled at run time, and the places in
    the CLS output buffer, a pointer advanced once per odd site"""
    if a['function'] == 'write_CLS_field' and a['msg'].startswith('write of heap@') and '] and write of heap@' in a['msg']:
        return False
    return not (a['entry'].startswith('hb_update') and 'all_staples_improve' in (a['msg'] + a['function']))


def run(tier, seed):
    res = Result()
    fieldrun.check(res, ('race',), tier, keep=improved,
                   floors=(('parallel regions', 60), ('worksharing loops', 90), ('functions', 150)),
                   covkeys=('parallel regions', 'worksharing loops', 'accesses', 'shared writes', 'synchronisation points'))
    res.coverage['explanation'] = (
        'Every access to memory that threads share is recorded between two barriers with the index it uses, the worksharing '
        'loop, and the lock, single or master region around it. Rule race: two accesses of one barrier-to-barrier phase, '
        'one of them a write, must be on provably different elements, in one iteration, or under mutual exclusion.')
    res.assumptions = ['the checkerboard tables put neighbouring sites in different colours (the table of the '
                       'rectangle-improved heat bath, init_improved_cb, is assumed likewise)',
                       'library calls do not touch shared memory except through their arguments']
    return res
