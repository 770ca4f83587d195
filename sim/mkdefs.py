#!/usr/bin/env python3
"""Snapshot of the published tag layout, taken from the pinned tree once (not at check time): the independent model the
oracles use to write and parse tag files. Usage: mkdefs.py /repo > defs.json"""
import glob, json, re, sys
repo = sys.argv[1]
objs, groups = {}, {}
for f in sorted(glob.glob(repo + '/src/ringhopper-definitions/json/tag/*.json')):
    for o in json.load(open(f)):
        if o['type'] == 'group':
            groups[o['name']] = {'struct': o['struct'], 'version': o['version'], 'super': o.get('supergroup')}
            if o.get('supported_engines'): groups[o['name']]['engines'] = o['supported_engines']
        elif o['type'] == 'enum':
            objs[o['name']] = {'t': 'enum', 'n': len(o['options']), 'ex': [i for i, x in enumerate(o['options']) if isinstance(x, dict) and (x.get('cache_only') or x.get('exclude'))]}
        elif o['type'] == 'bitfield':
            objs[o['name']] = {'t': 'bits', 'w': o['width'], 'n': len(o['fields']),
                'co': [i for i, x in enumerate(o['fields']) if isinstance(x, dict) and (x.get('cache_only') or x.get('exclude'))],
                'nc': [i for i, x in enumerate(o['fields']) if isinstance(x, dict) and x.get('non_cached')]}
        elif o['type'] == 'struct':
            fs = []
            if o.get('inherits'):
                fs.append({'name': '', 'type': o['inherits']})
            for x in o['fields']:
                if x['type'] == 'editor_section':
                    continue
                d = {k: x[k] for k in ('name', 'type', 'size', 'count', 'bounds', 'struct', 'groups') if k in x}
                for k in ('cache_only', 'exclude', 'little_endian', 'non_cached', 'shifted_by_one', 'default'):
                    if x.get(k) or o.get(k):
                        d[k] = x[k] if k == 'default' else True
                fs.append(d)
            objs[o['name']] = {'t': 'struct', 'size': o['size'], 'fields': fs}
fcc = {}
for m in re.finditer(r'\("([a-z_]+)", TagGroup::\w+, 0x([0-9A-F]{8})\)', open(repo + '/src/ringhopper-primitives/src/primitive/group.rs').read()):
    fcc[m.group(1)] = int(m.group(2), 16)
parents = {}
for f in glob.glob(repo + '/src/ringhopper-definitions/json/engine/**/*.json', recursive=True):
    for o in json.load(open(f)): parents[o['name']] = o.get('inherits')
json.dump({'parents': parents, 'objs': objs, 'groups': groups, 'fourcc': fcc}, sys.stdout, separators=(',', ':'), sort_keys=True)
