"""C02: everything built from gauge links is gauge covariant."""
from .. import fieldrun
from ..common import Result


def run(tier, seed):
    res = Result()
    fieldrun.check(res, fieldrun.MATRIX, tier,
                   only=lambda p, f: not fieldrun.in_cuts(p, f),
                   keep=lambda r, a: not a['file'].startswith('src/Cuts/'),
                   floors=(('typed products', 60), ('typed sums', 20), ('typed traces', 10), ('linkwrites', 20),
                           ('functions', 150)),
                   covkeys=('typed products', 'untyped products', 'typed sums', 'typed traces', 'linkwrites', 'linkwrites typed'))
    res.coverage['explanation'] = (
        'Abstract interpretation of every function that handles a gauge field, from the entry functions main can reach. '
        'A matrix has the type (start site, end site); a gauge link at x in direction mu goes from x to x+mu. Rules: '
        'product-type (the end of one factor is the start of the next), sum-type (summands have one type), open-loop (a '
        'traced matrix starts where it ends), link-store (what is stored in the link x,mu goes from x to x+mu), uninit (a '
        'matrix is assigned before it is used), bounds (directions are below ND).')
    res.assumptions = ['src/Cuts handles momentum-space fields of a fixed gauge and is outside this property',
                       'neighbour and back tables hold the sites their names say',
                       'matrix primitives compute the operation their names say']
    return res
