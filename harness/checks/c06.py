"""C06: control sections."""
from meta_common import run_meta


def run(ctx):
    run_meta(ctx, 'control', 'open-control,control'.split(','))
