#!/opt/venv/bin/python
"""Decide one property by static analysis of the sources in /repo.

usage: check.py <property id> [--tier quick|thorough]
exit 0: holds; 1: VIOLATION line; 2: the analysis could not be carried out.
"""
import os
import resource
import signal
import sys
import time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


BUDGET = {'quick': 780, 'thorough': 6 * 3600}


def bounds(stop):
    """Time and memory bounds: what was found until then is reported."""
    def on_alarm(*_):
        raise stop
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(BUDGET['quick' if TIER[0] == 'quick' else 'thorough'])
    try:
        resource.setrlimit(resource.RLIMIT_AS, (24 << 30, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass


TIER = ['quick']


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    TIER[0] = tier
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(20000)
    from sa import core
    rep = core.Report(prop, tier)
    from sa import frontend as F, registry, terms
    import importlib
    import traceback
    code = None
    bounds(core.Enough)
    start = time.monotonic()
    for path in sorted(registry.RULES[prop], key=lambda p: p[0] in registry.LARGE):
        mod, fn = path[0].rsplit('.', 1)
        large = path[0] in registry.LARGE
        if large:
            # a share of the time; what was not explored is noted
            left = max(1, BUDGET[tier] - (time.monotonic() - start))
            signal.alarm(int(max(1, min(left - 20, BUDGET[tier] / 3))))
        try:
            getattr(importlib.import_module('sa.rules.' + mod), fn)(rep, *path[1:])
        except (core.Enough, terms.Blowup) as e:
            if large and not rep.violations:
                rep.notes.append(f'not completed in the time available: {" ".join(path)}')
                continue
            if isinstance(e, terms.Blowup):
                traceback.print_exc()
                print(f'ERROR property={prop}: {type(e).__name__}: {e}')
                code = 2
                continue
            rep.notes.append('stopped early')
            if not rep.violations:
                print(f'ERROR property={prop}: the analysis was stopped after {BUDGET[tier]} s')
                code = 2
            break
        except F.TraceFailure as e:
            if F.concrete_only(e):
                print(f'ERROR property={prop}: {e.label} is not analysed: it needs the value of an input at {e.loc}: {e.exc}')
                code = 2
                continue
            rep.ok('accepts-documented-input', False, f'{e.label} cannot be lowered for a documented configuration', e.loc, f'{type(e.exc).__name__}: {e.exc}')
        except F.MissingAnchor as e:
            print(f'ERROR property={prop}: analysis anchor missing: {e}')
            code = 2
        except Exception as e:
            traceback.print_exc()
            print(f'ERROR property={prop}: {type(e).__name__}: {e}')
            code = 2
        finally:
            if large:
                signal.alarm(int(max(1, BUDGET[tier] - (time.monotonic() - start))))
    signal.alarm(0)
    r = core.finish(rep, seed)
    if r == 0 and code:
        return code
    return r


if __name__ == '__main__':
    code = main(sys.argv)
    sys.stdout.flush()
    os._exit(code)
