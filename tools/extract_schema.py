#!/usr/bin/env python3
"""Development-time tool: reads the bit-packed layouts out of a protocol module and writes them as
a schema (sim/schema/bit_<proto>.json).  It was run once on the base commit; the result is committed
and validated against the recorded games (byte-exact re-encoding), so a later change of a layout in
/repo does not change the oracle."""
import re, sys, json
proto = sys.argv[1]
src = open('/repo/src/versions/protocol%s/mod.rs' % proto).read()
b = src[src.index('pub mod bit_packed'):]
types = {}
OUT = {}
for m in re.finditer(r'\n    pub type (\w+) = ([\w:<>]+);', b):
    OUT[m.group(1)] = {'k': 'ref', 't': m.group(2)}
def inline(body):
    body = re.sub(r'\s+', ' ', body)
    m = re.search(r'= if is_provided \{(.*?)\} else \{', body)
    if m:
        inner = m.group(1)
        if 'array_length' in inner:
            bits = int(re.search(r'take_n_bits_into_i64\(\w+, (\d+)\)', inner).group(1))
            t = re.search(r'= (\w+)(::parse)?\(tail\)\?', inner)
            if t.group(1) == 'take_unaligned_byte': return {'opt': {'bytes': bits}}
            return {'opt': {'arr': [bits, t.group(1)]}}
        return {'opt': prim(inner)}
    if 'array_length' in body:
        bits = int(re.search(r'take_n_bits_into_i64\(\w+, (\d+)\)', body).group(1))
        t = re.search(r'= (\w+)(::parse)?\(tail\)\?', body)
        if t.group(1) == 'take_unaligned_byte': return {'bytes': bits}
        return {'arr': [bits, t.group(1)]}
    return prim(body)
def prim(body):
    m = re.search(r'parse_packed_int\(\w+, (-?\d+), (\d+)usize\)', body)
    if m: return {'int': [int(m.group(1)), int(m.group(2))]}
    if 'parse_bool(' in body: return 'bool'
    if 'take_fourcc(' in body: return 'fourcc'
    if 'take_null(' in body: return 'null'
    if 'take_unaligned_byte(' in body: return 'byte'
    m = re.search(r'take_bit_array\(\w+, ([^)]*)\)', body)
    if m: raise Exception('bitarray inline ' + body)
    m = re.search(r'= (\w+)::parse\(', body)
    if m: return m.group(1)
    raise Exception('prim ' + body)
impls = re.split(r'\n    impl ', b)[1:]
for im in impls:
    name = im.split(' ', 1)[0]
    im = im.split('\n    }\n')[0]
    fns = {}
    for m in re.finditer(r'pub fn (\w+)\((.*?)\{\n(.*?)\n        \}(?=\n|$)', im, re.S):
        fns[m.group(1)] = m.group(3)
    if 'parse' not in fns: continue
    body = re.sub(r'\s+', ' ', fns['parse'])
    if re.search(r'let tail = input; Ok\(\(tail, Self \{\}\)\)', body): OUT[name] = {'k': 'struct', 'f': []}; continue
    m = re.search(r'let offset: i64 = (-?\d+); let num_bits: usize = (\d+);', body)
    if m: OUT[name] = {'k': 'int', 'off': int(m.group(1)), 'bits': int(m.group(2))}; continue
    m = re.search(r'let str_size_num_bits: usize = (\d+);', body)
    if m:
        off = int(re.search(r'parse_packed_int\(input, (\d+), str_size', body).group(1))
        assert off == 0
        OUT[name] = {'k': 'str', 'bits': int(m.group(1))}; continue
    m = re.search(r'let array_length_num_bits: usize = (\d+);', body)
    if m:
        t = re.search(r'= (\w+)::parse\(tail\)\?', body)
        o = re.search(r'parse_packed_int\(input, (-?\d+), array_length', body); assert o and o.group(1) == '0', body
        if t: OUT[name] = {'k': 'arr', 'bits': int(m.group(1)), 't': t.group(1)}
        else: raise Exception(name + body)
        continue
    m = re.search(r'let bitarray_length_bits: usize = (\d+);', body)
    if m: OUT[name] = {'k': 'bitarr', 'bits': int(m.group(1))}; continue
    if 'num_bits: usize = 40 * 8' in body: OUT[name] = {'k': 'blobfix', 'n': 40}; continue
    if 'variant_tag' in body:
        bits = int(re.search(r'let num_bits: usize = (\d+);', body).group(1))
        assert re.search(r'parse_packed_int\(input, (0|offset), num_bits\)', body)
        vs = {}
        for m in re.finditer(r'(\d+) => \{ tracing::\w+!\( ?"[^"]*" ?\); (.*?)\} (?=\d+ =>|_ =>)', body):
            tag, arm = int(m.group(1)), m.group(2)
            v = re.search(r'Self::(\w+)(\(res\))?', arm)
            opt = 'is_provided' in arm
            t = prim(arm.split('is_provided {')[1]) if opt else prim(arm) if v.group(2) else None
            vs[tag] = [v.group(1), {'opt': t} if opt else t]
        if any(v[1] is not None for v in vs.values()): OUT[name] = {'k': 'choice', 'bits': bits, 'v': vs}
        else: OUT[name] = {'k': 'enum', 'bits': bits, 'v': {k: v[0] for k, v in vs.items()}}
        continue
    m = re.match(r' ?let \(tail, value\) = (\w+)::parse\(input\)\?; Ok\(\(tail, Self \{ value \}\)\)', body)
    if m: OUT[name] = {'k': 'ref', 't': m.group(1)}; continue
    order = re.findall(r'Self::parse_(\w+)\(tail\)', body)
    if not order: 
        print('??', name, body[:300], file=sys.stderr); continue
    OUT[name] = {'k': 'struct', 'f': [[f, inline(fns['parse_' + f])] for f in order]}
# imported names
for m in re.finditer(r'use super::super::(\S+)', b): print('import', m.group(0), file=sys.stderr)
refs = set()
def walk(x):
    if isinstance(x, str):
        if x not in ('bool', 'fourcc', 'null', 'byte'): refs.add(x)
    elif isinstance(x, dict):
        for k, v in x.items():
            if k in ('opt', 't'): walk(v)
            if k == 'arr' and isinstance(v, list): walk(v[1])
for n, d in OUT.items():
    if d['k'] == 'struct':
        for f, t in d['f']: walk(t)
    elif d['k'] in ('ref', 'arr'): walk(d['t'])
    elif d['k'] == 'choice':
        for v in d['v'].values(): walk(v[1]) if v[1] else None
print('missing', sorted(r for r in refs if r not in OUT), file=sys.stderr)
print(json.dumps(OUT, indent=0, sort_keys=True))
