"""Replays concrete inputs of a harness on the plain (untransformed) code of /repo.

  replay.py PROP TIER -            items as JSON on stdin (used by the checks)
  replay.py FILE.json              one recorded counterexample; exit 1 if it still fails
"""
import json
import os
import sys
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ['SYMX_CONCRETE'] = '1'


def main():
    import importlib
    from symx import concrete
    if len(sys.argv) == 2:
        r = json.load(open(sys.argv[1]))
        prop, tier, items = r['property'], r['tier'], [r]
    else:
        prop, tier = sys.argv[1], sys.argv[2]
        items = json.load(sys.stdin)
    mod = importlib.import_module('harness.' + prop)
    cases = mod.cases(tier)
    out = []
    for it in items:
        try:
            c = concrete.run(cases[it['case']][1], it['inputs'])
            out.append({'failures': [[f[0], str(f[1])[:1500]] for f in c.failures], 'obs': [[n, c.show(v)] for n, v in c.obs],
                        'skipped': getattr(c, 'skipped', False)})
        except Exception as e:
            # nothing of the kind happens on a tree where the property holds
            out.append({'failures': [['unexpected exception', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])]], 'obs': []})
        except BaseException as e:
            out.append({'error': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])})
    if len(sys.argv) == 2:
        print(json.dumps(out[0], indent=1))
        sys.stdout.flush()
        os._exit(1 if out[0].get('failures') or 'error' in out[0] else 0)
    print(json.dumps(out))
    sys.stdout.flush()
    os._exit(0)


main()
