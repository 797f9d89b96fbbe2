"""Runs cases of one property read from stdin (JSON lines), answers on fd 3 copies of stdout."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings


def main():
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    os.dup2(2, 1)  # anything printed by the code under test goes to stderr
    prop = sys.argv[1]
    warnings.simplefilter('ignore')
    from . import core
    mod = importlib.import_module('kymon.props.' + prop)
    import faulthandler
    faulthandler.enable()
    out.write(json.dumps({'ready': True}) + '\n')
    for line in sys.stdin:
        case = json.loads(line)
        mon = core.Monitor()
        t = time.time()
        status = 'ok'
        err = None
        try:
            mod.run_case(case, mon)
        except core.Skip as e:
            status = 'skip'
            err = str(e)
        except core.HarnessError as e:
            status = 'harness'
            err = str(e) + traceback.format_exc()[-1500:]
        except Exception as e:
            if core.in_repo(e.__traceback__) or getattr(mod, 'EXC_IS_VIOLATION', False):
                mon.violate('exception:%s:%s' % (case.get('kind'), type(e).__name__),
                            'unexpected %s: %s\n%s' % (type(e).__name__, str(e)[:400], traceback.format_exc()[-900:]))
            elif core.malformed(e):
                # the harness handles every well-formed result: what it was given is not one
                mon.violate('malformed:%s:%s' % (case.get('kind'), type(e).__name__),
                            'results cannot be judged, %s: %s\n%s' % (type(e).__name__, str(e)[:400], traceback.format_exc()[-900:]))
            else:
                status = 'harness'
                err = traceback.format_exc()[-3000:]
        r = mon.result()
        r.update(status=status, err=err, t=time.time() - t)
        out.write(json.dumps(r) + '\n')


if __name__ == '__main__':
    main()
