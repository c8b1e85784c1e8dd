#!/opt/venv/bin/python
"""check.py PROPERTY: decides one property on /repo's working tree.

Exit 0: it held on everything explored. Exit 1, with a VIOLATION line: it is
broken. Anything else: the machinery failed."""
import importlib
import os
import sys
import traceback
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))


def main(argv):
    prop = argv[0]
    from vf.core import Ctx
    from vf.quint import MachineryError
    from vf import impl
    mod = importlib.import_module(f'vf.props.{prop.lower()}')
    ctx = Ctx(prop)
    try:
        try:
            impl.sunwhere()
        except Exception as exc:
            ctx.violation('import', error=repr(exc))
            ctx.traces = ctx.evaluations = 1
            return ctx.finish()
        mod.run(ctx)
        return ctx.finish()
    except Exception as exc:
        traceback.print_exc()
        # did the library raise, with something that it should serve?
        if not isinstance(exc, MachineryError) and os.path.join(impl.REPO, 'src', 'sunwhere') in traceback.format_exc():
            ctx.violation('exception', error=repr(exc))
            ctx.traces = ctx.evaluations = 1
            return ctx.finish()
        ctx.work.close()
        return 3


if __name__ == '__main__':
    if sys.executable != '/opt/venv/bin/python' and os.path.exists('/opt/venv/bin/python'):
        os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', *sys.argv])
    sys.exit(main(sys.argv[1:]))
