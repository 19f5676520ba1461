"""Subprocess: evaluates the contract clauses of one property on concrete calls of the real code.
usage: run_main.py CXX tier seed out.json [case.json]"""
import sys, os, json, time, random, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import rt, mine


def main():
    prop, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    rt.setup()
    t0 = time.time()
    budget = float(os.environ.get('VP_B_BUDGET', '240' if tier == 'quick' else '1500'))
    res = dict(ok=0, skip=0, violated=[], harness=[], unusable=[], skips=[], samples=[], distinct=0, known=[])
    try:
        cm = importlib.import_module('contracts.' + prop.lower())
    except Exception:
        res['harness'].append(traceback.format_exc())
        json.dump(res, open(out, 'w')); return
    if len(sys.argv) > 5:
        gen = [json.load(open(sys.argv[5]))['case']]
    else:
        gen = cm.cases(tier, random.Random(seed))
    seen = set()
    if tier == 'escalate':
        m = json.loads(os.environ['VP_MINED']) if os.environ.get('VP_MINED') else mine.changed(rt.REPO) or {}
        for k in rt.MINED:
            rt.MINED[k] = m.get(k, [])
        # the fixed cases are those of the ordinary run
        rt.WIDE[0] = False
        save = dict(rt.MINED)
        for k in rt.MINED:
            rt.MINED[k] = []
        seen = set(json.dumps(c, sort_keys=True) for c in cm.cases('quick', random.Random(1)))
        rt.WIDE[0] = True
        rt.MINED.update(save)
        base_seen = len(seen)
    for case in gen:
        key = json.dumps(case, sort_keys=True)
        if tier == 'escalate' and key in seen:
            if time.time() - t0 > budget:
                break
            continue
        st, msg = rt.run_case(cm, case, limit=getattr(cm, 'CASE_LIMIT', 30))
        if st == 'ok':
            res['ok'] += 1
            if key not in seen and len(res['samples']) < 5:
                res['samples'].append(key[:300])
        elif st == 'skip':
            res['skip'] += 1
            if len(res['skips']) < 5:
                res['skips'].append([key[:200], msg[:300]])
        elif st == 'violated':
            res['violated'].append(dict(case=case, message=msg))
            if len(res['violated']) >= 5:
                break
        else:
            if st == 'unusable':
                res['unusable'].append(dict(case=case, message='the result could not be used: ' + msg))
            res['harness'].append(dict(case=case, message=msg))
            if len(res['harness']) >= 25:
                break
        seen.add(key)
        if time.time() - t0 > budget:
            res['budget_hit'] = True
            break
    res['distinct'] = len(seen) - (base_seen if tier == 'escalate' else 0)
    res['wall_s'] = round(time.time() - t0, 3)
    json.dump(res, open(out, 'w'))


main()
