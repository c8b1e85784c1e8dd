from .derived import run_derived


def run(ctx):
    run_derived(ctx, 20)
