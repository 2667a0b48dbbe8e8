"""C05: Dagger blocks."""
from meta_common import run_meta


def run(ctx):
    run_meta(ctx, 'dagger', ['open-dagger'])
