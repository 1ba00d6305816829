#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property for the current tree of /repo."""
import gc, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pegcheck import checks, build, ctx

gc.set_threshold(200000, 50, 1000)     # millions of facts are loaded and kept


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    c = ctx.Ctx(pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        checks.ALL[pid](c)
    except build.BuildFailed as e:
        own = [m for m in e.messages if m.get('level') == 'error']
        c.violation('build: %s' % e, 'the current tree could not be built for analysis: %s\n%s' % (e, e.raw or '\n'.join(m.get('rendered', m['message']) for m in own)))
    except Exception:
        # no verdict: neither held nor violated
        traceback.print_exc()
        print('%s: NO VERDICT, internal error' % pid)
        sys.exit(2)
    sys.exit(c.finish())


main()
