#!/usr/bin/env python3
"""replay.py FILE: rerun a recorded violation against the real code in /repo."""
import sys, os, json, tempfile, shutil
import check


def main(fn):
    r = json.load(open(fn))
    det = r['detail']
    print('property %s, obligation %s' % (r['property'], r['obligation']))
    case = det.get('case') or det.get('inputs')
    if case is None:
        print('no input recorded; verifier output:')
        print(json.dumps(det, indent=1)[:4000])
        return 1
    key = r['obligation'].split(':')[0]
    tmp = tempfile.mkdtemp(prefix='pv_replay_')
    try:
        res, err = check.finish_dynamic(check.start_dynamic(tmp, 'replay', {key: {'cases': 0, 'limit': 60, 'replays': [case]}},
                                                            1), 200)
        if res is None:
            print('replay did not run:', err)
            return 2
        print(json.dumps(res[key], indent=1)[:6000])
        if res[key]['failures']:
            print('REPRODUCED')
            return 1
        print('not reproduced; verifier output:')
        print(json.dumps(det, indent=1)[:4000])
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    check.load_units()
    sys.exit(main(sys.argv[1]))
