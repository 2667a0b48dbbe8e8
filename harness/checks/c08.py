"""C08: loop sections."""
from meta_common import run_meta


def run(ctx):
    run_meta(ctx, 'loop', 'open-loop,loop'.split(','))
