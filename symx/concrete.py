"""Concrete replay: runs harness bodies against the unmodified pyrtlib from /repo (fresh process)."""
import json
import os
import sys


def main():
    job = json.load(open(sys.argv[1]))
    sys.path.insert(0, job['verif'])
    sys.path.insert(0, job['repo'])
    import numpy as np
    import importlib
    from symx import harness as H
    mod = importlib.import_module('checks.' + job['module'])
    hz = {h.name: h for h in H.REG}
    H.load_all()
    import pyrtlib
    assert os.path.realpath(pyrtlib.__file__).startswith(os.path.realpath(job['repo'])), pyrtlib.__file__
    snap = H.snapshot()
    out = []
    for j in job['runs']:
        h = hz[j['name']]
        H.restore(snap)
        ch = H.CH(dict(j['env'] or {}), j['choices'])
        r = dict(outcome='ok', exc=None, etype=None)
        try:
            with H.quiet(ch):
                h.fn(ch, **h.params)
        except H.Skip:
            r['outcome'] = 'skip'
        except (Exception, SystemExit) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            fr = [f for f in tb if '/pyrtlib/' in f.filename] or tb
            r.update(outcome='exception', etype=type(e).__name__, incode=any('/pyrtlib/' in f.filename for f in tb),
                     exc='%s: %s @ %s:%s' % (type(e).__name__, str(e)[:200], os.path.basename(fr[-1].filename), fr[-1].lineno))
        finally:
            ch.unpatch()
        r['fails'] = ch.fails[:40]
        r['checked'] = ch.checked
        r['known'] = ch.known
        if j.get('expect'):
            r['pairs'] = [(x, y) for l, x, y in ch.pairs if l == j['expect'][0]]
        obs = {}
        flat = []
        for l, v in ch.obs:
            if isinstance(v, (complex, np.complexfloating)):
                flat += [(l + '.re', v.real), (l + '.im', v.imag)]
            else:
                flat.append((l, v))
        for l, v in H.numbered(flat):
            if isinstance(v, (np.floating, np.integer, np.bool_)):
                v = v.item()
            obs[l] = v if isinstance(v, (int, float, str, bool)) or v is None else repr(v)
        r['obs'] = obs
        out.append(r)
    json.dump(out, open(sys.argv[2], 'w'))


if __name__ == '__main__':
    main()
