"""Re-execute a replay file in a fresh process and print its trace."""
import json
import sys

from dst.runner import call


def main():
    path = sys.argv[1]
    case = json.load(open(path))
    mode = 'traced' if case.get('traced') else 'replay'
    r = call([mode, '--file', path], 600, case.get('hashseed', 0))
    for e in r.get('events') or []:
        print('   ', e)
    if r.get('error'):
        print('ERROR', r['error'])
        sys.exit(3)
    v = r['verdict']
    if not v:
        print('no violation on this tree')
        sys.exit(0)
    print(v['cls'], v['msg'])
    if case.get('digest'):
        print('event log %s recorded one' % ('identical to the' if case['digest'] == r['digest'] else 'DIFFERS from the'))
    print('VIOLATION property=%s replay=%s' % (case['property'], path))
    sys.exit(1)


if __name__ == '__main__':
    main()
