from .alg import run_alg


def run(ctx):
    run_alg(ctx, 1)
