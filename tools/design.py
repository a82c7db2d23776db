"""Completes the generated tables of DESIGN.md from the catalogue."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo')


def table(begin, text, body):
    mark = f'<!-- {begin} -->'
    end = f'<!-- end {begin} -->'
    if begin in text and mark not in text:
        text = text.replace(begin, f'{mark}\n{end}', 1)
    return re.sub(re.escape(mark) + '.*?' + re.escape(end),
                  lambda m: f'{mark}\n{body}\n{end}', text, flags=re.S)


def main():
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    out = ['## The properties, and how each is decided', '']
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        try:
            mod = importlib.import_module(f'props.{p["id"]}')
        except ImportError:
            continue
        out += [f'### {p["id"]} {p["title"]}', '', (mod.__doc__ or '').strip(),
                '']
        for h in mod.HARNESSES:
            doc = ' '.join((h.func.__doc__ or '').split())
            out.append(f'* `{h.name}`: {doc} {len(h.quick)} configurations'
                       + (f' (+{len(h.thorough)} thorough)' if h.thorough
                          else '') + f'. Bounds: {h.bounds or "see source"}.')
        if getattr(mod, 'OUTSIDE', ''):
            out.append(f'* outside of the bounds: {mod.OUTSIDE}.')
        out.append('')
    text = table('PROPERTIES_TABLE', text, '\n'.join(out))
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    text = table('FIXES_TABLE', text, '\n'.join(
        '* ' + x for x in known['fixed']))
    seeds = ['| planted bug | property | needs | quick check |',
             '|---|---|---|---|']
    results = {}
    rpath = os.path.join(HERE, 'tools', 'seeds.txt')
    if os.path.exists(rpath):
        for line in open(rpath):
            f = line.split()
            if f:
                results[f[0]] = 'caught' if 'caught' in f else 'missed'
    for name in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', name, 'meta.json')))
        seeds.append(f'| {name} | {m["property"]} | {m["needs"]} | '
                     f'{results.get(name, "?")} |')
    text = table('SEEDS_TABLE', text, '\n'.join(seeds))
    open(path, 'w').write(text)


if __name__ == '__main__':
    main()
