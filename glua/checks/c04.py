"""C04: all threads of a team meet the same barriers."""
from .. import fieldrun
from ..common import Result


def run(tier, seed):
    res = Result()
    fieldrun.check(res, ('barrier',), tier,
                   floors=(('parallel regions', 60), ('worksharing loops', 100), ('functions', 200)),
                   covkeys=('parallel regions', 'worksharing loops', 'synchronisation points'))
    res.coverage['explanation'] = (
        'Values that may differ from thread to thread are tracked (thread number, private results of worksharing loops, '
        'data read while another thread may still write it). Rule barrier: no barrier, worksharing or single construct '
        'is reached under a condition, loop or early exit controlled by such a value, or inside another worksharing, '
        'single, master or critical region.')
    return res
