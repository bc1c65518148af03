"""Replay worker: runs harness cases on the real code (PyPy, real numpy/scipy) on concrete values.
Protocol: JSON lines on stdin/stdout."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    from harness import api, conctx
    import skcurve  # noqa
    loaded = {}
    for line in sys.stdin:
        req = json.loads(line)
        if req.get('quit'):
            break
        prop = req['prop']
        if prop not in loaded:
            importlib.import_module('props.' + prop.lower())
            loaded[prop] = api.REG.of('props.' + prop.lower())
        fn, params, _ = loaded[prop][req['case']]
        res = conctx.run(fn, params, req.get('inputs', {}), req.get('choices', {}))
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
