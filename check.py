#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on the current tree of /repo."""
import sys, os, traceback, resource

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.setrecursionlimit(100000)

from engine.report import Report
from engine.extract import ExtractError


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    rep = Report(pid, tier if tier in ('quick', 'thorough') else 'quick')
    try:
        from checks import registry
        registry.run(pid, rep)
        # what is compiled only without debug assertions (or only with them) is analysed in both configurations
        if not rep.viol:
            from engine import extract
            crates = set(extract.differs()) & set(registry.crates(pid))
            rep.count('configurations analysed', 2 if crates else 1)
            if crates:
                extract.RELEASE = True
                registry.run(pid, rep)
    except ExtractError as e:
        rep.fail('the crate and its public API can be analysed', 'extraction', str(e))
    except Exception as e:
        rep.fail('the analysis completes', type(e).__name__, traceback.format_exc()[-3000:])
    return rep.finish()


if __name__ == '__main__':
    import threading
    threading.stack_size(512 << 20)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 1)
