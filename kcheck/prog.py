"""Resolved-program model: loads the driver's JSON dump and offers lookups and pretty printing."""
import json


EXT = ('core', 'alloc', 'std', 'nom', 'serde', 'serde_core', 'lexical_core', 'lexical_util', 'lexical_parse_integer', 'fast_float', 'base91', 'bitflags')


def ty_str(t):
    if t is None:
        return '?'
    k = t['k']
    if k in ('int', 'uint', 'float'):
        return t['n']
    if k == 'adt':
        return t['p'] + ('<%s>' % ', '.join(map(ty_str, t['a'])) if t['a'] else '')
    if k == 'ref':
        return '&' + ('mut ' if t['m'] else '') + ty_str(t['t'])
    if k == 'ptr':
        return '*' + ('mut ' if t['m'] else '') + ty_str(t['t'])
    if k == 'slice':
        return '[%s]' % ty_str(t['t'])
    if k == 'array':
        return '[%s; %s]' % (ty_str(t['t']), t['n'])
    if k == 'tuple':
        return '(%s)' % ', '.join(map(ty_str, t['a']))
    if k == 'param':
        return t['n']
    if k in ('fndef', 'closure'):
        return '{%s}' % t['p']
    return t.get('s', k)


def place_str(p):
    s = '_%d' % p['l']
    for e in p['p']:
        k = e['e']
        if k == 'deref':
            s = '(*%s)' % s
        elif k == 'field':
            s += '.%s' % (e['n'] or e['i'])
        elif k == 'downcast':
            s = '(%s as %s)' % (s, e['n'])
        elif k == 'index':
            s += '[_%d]' % e['l']
        else:
            s += '.' + json.dumps(e)
    return s


def const_str(c):
    for k in ('str', 'char'):
        if k in c:
            return repr(c[k])
    if 'fn' in c:
        f = c['fn']
        r = f['p']
        if f['self'] is not None:
            r = '<%s>' % ty_str(f['self']) + r
        if f['res'] and f['res']['p'] != f['p']:
            r += ' => ' + f['res']['p']
        return r
    for k in ('int', 'bool', 'float', 'variant'):
        if k in c:
            return '%s' % c[k] + (('{%s}' % c['named']) if 'named' in c else '')
    if 'promoted' in c:
        return 'promoted[%d]' % c['promoted']
    if 'bytes' in c:
        return 'bytes' + repr(bytes(c['bytes']))
    return json.dumps({k: v for k, v in c.items() if k != 'ty'}) + ':' + ty_str(c['ty'])


def op_str(o):
    if o['o'] in ('copy', 'move'):
        return ('' if o['o'] == 'copy' else 'move ') + place_str(o['p'])
    if o['o'] == 'const':
        return const_str(o['c'])
    return o['o']


def rv_str(r):
    k = r['r']
    if k == 'use':
        return op_str(r['x'])
    if k == 'ref':
        return '&' + ('mut ' if r['m'] else '') + place_str(r['p'])
    if k == 'bin':
        return '%s(%s, %s)' % (r['op'], op_str(r['x']), op_str(r['y']))
    if k == 'un':
        return '%s(%s)' % (r['op'], op_str(r['x']))
    if k == 'cast':
        return '%s as %s (%s)' % (op_str(r['x']), ty_str(r['t']), r['kd'])
    if k == 'discr':
        return 'discr(%s)' % place_str(r['p'])
    if k == 'agg':
        n = {'adt': lambda: r['p'] + '::' + r['vn'], 'closure': lambda: '{%s}' % r['p']}.get(r['k'], lambda: r['k'])()
        return '%s{%s}' % (n, ', '.join(map(op_str, r['x'])))
    return json.dumps(r)


def term_str(t):
    k = t['t']
    if k == 'goto':
        return 'goto %d' % t['to']
    if k == 'switch':
        return 'switch %s [%s, else %d]' % (op_str(t['d']), ', '.join('%s->%d' % tuple(x) for x in t['v']), t['else'])
    if k == 'call':
        return '%s = %s(%s) -> %s' % (place_str(t['d']), op_str(t['f']), ', '.join(map(op_str, t['args'])), t['to'])
    if k == 'assert':
        return 'assert %s==%s %s -> %d' % (op_str(t['c']), t['exp'], t['k'], t['to'])
    if k == 'drop':
        return 'drop %s -> %d' % (place_str(t['p']), t['to'])
    return k


def body_str(b, drops=True):
    out = []
    for i, l in enumerate(b['locals']):
        out.append('  let _%d%s: %s' % (i, ('(%s)' % l['n']) if l['n'] else '', ty_str(l['ty'])))
    for i, blk in enumerate(b['blocks']):
        if blk['cleanup']:
            continue
        out.append(' bb%d:' % i)
        for s in blk['s']:
            if s['s'] == 'assign':
                out.append('    %s = %s' % (place_str(s['p']), rv_str(s['r'])))
            elif s['s'] not in ('dead', 'live'):
                out.append('    %s' % json.dumps(s))
        out.append('    ' + term_str(blk['t']))
    return '\n'.join(out)


class Program:
    def __init__(self, path):
        with open(path) as f:
            self.j = json.load(f)
        self.fns = {f['id']: f for f in self.j['fns']}
        self.by_path = {}
        for f in self.j['fns']:
            self.by_path.setdefault(f['path'], []).append(f)
        self.adts = self.j['adts']
        self.local_prefix = []
        self._ty = {}
        for a in self.adts:
            if a.split('::')[0] not in self.j.get('externs', EXT) and '<' not in a:
                self._ty.setdefault(a.split('::')[-1], []).append(a)

    def ty(self, name):
        """path of a type of this crate given by its name (or by a module::name suffix)"""
        if name in self.adts:
            return name
        c = [a for a in self._ty.get(name.split('::')[-1], []) if a == name or ('::' + a).endswith('::' + name)]
        if len(c) != 1:
            from core import NoAnswer
            raise NoAnswer('type %s: %d candidates' % (name, len(c)))
        return c[0]

    def find(self, path):
        r = self.by_path.get(path, [])
        return r[0] if len(r) == 1 else None


if __name__ == '__main__':
    import sys
    p = Program(sys.argv[1])
    if len(sys.argv) == 2:
        for f in p.j['fns']:
            print(f['id'], f['kind'], 'pub' if f['pub'] else '', f['path'], f.get('sig', ''))
    else:
        for f in p.j['fns']:
            if sys.argv[2] in f['path']:
                print('==', f['id'], f['path'], f['span'])
                print(body_str(f['body']))
                for i, b in enumerate(f['promoted']):
                    print(' promoted', i)
                    print(body_str(b))
