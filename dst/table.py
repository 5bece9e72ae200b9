"""The one table behind properties.jsonl, MANIFEST.json and dst/config.json.

Run `python3 -m dst.table` in /verif to rewrite all three (they are committed).
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
COMMON = ['The interpreter, numpy and scipy are trusted; library code above them is real.',
          'Runs are sampled from seeds: a clean batch is evidence, not proof.']


def prop(pid, title, statement, over, text, why, files, mechanism, observe,
         quick, thorough, rule, state, real, stub, technique, note,
         level='exploration', assumptions=(), quick_secs=200, thorough_secs=780, **cfg):
    PROPS.append(dict(
        prop=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)),
        check=dict(property=pid, quick_cmd='./check %s quick' % pid, thorough_cmd='./check %s thorough' % pid,
                   technique=technique, level=level, level_note=note),
        config=dict(level=level, quick_runs=quick, thorough_runs=thorough, rule=rule, state_measure=state,
                    components=dict(real_code=real, stub=stub), assumptions=COMMON + list(assumptions),
                    quick_secs=quick_secs, thorough_secs=thorough_secs, **cfg)))


def not_applicable(pid, title, statement, over, text, why, files, mechanism, reason):
    NA.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
                    why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                                 observe_at=[], hook_needed=None)),
               dict(property=pid, reason=reason)))


def write():
    import dst.table_entries  # noqa  (fills PROPS and NA)
    from dst import table
    props = sorted([p['prop'] for p in table.PROPS] + [p for p, _ in table.NA], key=lambda p: p['id'])
    for p in props:
        assert len(p['title']) <= 80, p['title']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p) + '\n')
    man = dict(version=1, setup_cmd='./setup.sh',
               checks=[p['check'] for p in table.PROPS],
               not_applicable=[r for _, r in table.NA])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
    with open(os.path.join(HERE, 'dst', 'config.json'), 'w') as f:
        json.dump({p['prop']['id']: p['config'] for p in table.PROPS}, f, indent=1, sort_keys=True)


if __name__ == '__main__':
    write()
