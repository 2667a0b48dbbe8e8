"""C07: compute sections."""
from meta_common import run_meta


def run(ctx):
    run_meta(ctx, 'compute', 'open-compute,uncompute-alone,custom-alone'.split(','))
