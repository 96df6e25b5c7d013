"""The interface description in /repo/idls as Rust constants, for the harness (h_idl*)."""
import json
import sys


def ty(t):
    if isinstance(t, str):
        return t
    if isinstance(t, dict) and len(t) == 1:
        k, v = next(iter(t.items()))
        if k == 'defined':
            return str(v)
        if k == 'option':
            return 'option:' + ty(v)
        if k == 'array':
            return 'array:%s:%s' % (ty(v[0]), v[1])
    return 'unknown'


def q(s):
    return json.dumps(str(s), ensure_ascii=True).replace('\\u', '\\\\u')


def fields(l, k='type'):
    return '&[%s]' % ', '.join('(%s, %s)' % (q(f.get('name')), q(ty(f.get(k)))) for f in l)


def render(path):
    try:
        d = json.load(open(path))
        ins = d['instructions']
        out = ['pub const ADDRESS: &str = %s;' % q(d['metadata']['address'])]
        out.append('pub const INSTRUCTIONS: &[Ins] = &[')
        for i in ins:
            disc = i['discriminant']
            accs = ', '.join('Acc { name: %s, writable: %s, signer: %s, optional: %s }' %
                             (q(a['name']), str(bool(a.get('isMut'))).lower(), str(bool(a.get('isSigner'))).lower(),
                              str(bool(a.get('isOptional') or a.get('optional'))).lower()) for a in i['accounts'])
            out.append('    Ins { name: %s, tag_type: %s, tag: %d, accounts: &[%s], args: %s },' %
                       (q(i['name']), q(ty(disc['type'])), int(disc['value']), accs, fields(i['args'])))
        out.append('];')
        out.append('pub const ACCOUNTS: &[(&str, &[(&str, &str)])] = &[')
        for a in d['accounts']:
            out.append('    (%s, %s),' % (q(a['name']), fields(a['type']['fields'])))
        out.append('];')
        out.append('pub const ENUMS: &[(&str, &[&str])] = &[')
        for a in d.get('types', []):
            if a['type']['kind'] == 'enum':
                out.append('    (%s, &[%s]),' % (q(a['name']), ', '.join(q(v['name']) for v in a['type']['variants'])))
        out.append('];')
        out.append('pub const ERRORS: &[(u64, &str)] = &[%s];' % ', '.join('(%d, %s)' % (int(e['code']), q(e['name'])) for e in d.get('errors', [])))
        return '\n'.join(out) + '\n'
    except Exception as e:  # no readable description: only h_idl* is affected
        return ('// %s\n' % str(e).replace('\n', ' ') + 'pub const ADDRESS: &str = "";\npub const INSTRUCTIONS: &[Ins] = &[];\n'
                'pub const ACCOUNTS: &[(&str, &[(&str, &str)])] = &[];\npub const ENUMS: &[(&str, &[&str])] = &[];\npub const ERRORS: &[(u64, &str)] = &[];\n')


def write(src, dst):
    new = render(src)
    try:
        if open(dst).read() == new:
            return
    except OSError:
        pass
    open(dst, 'w').write(new)


if __name__ == '__main__':
    write(sys.argv[1], sys.argv[2])
