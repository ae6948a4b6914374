#!/usr/bin/env python3
"""gen.py [-n MAX] [-s SEED] [FILE...]: one-place changes of the library's code, as JSON lines.

Each is {"id", "file", "line", "op", "old", "new"}, where old and new are the whole
text of the lines concerned. Comments and unit tests are left alone.
"""
import argparse, json, os, random, re

ap = argparse.ArgumentParser()
ap.add_argument('-n', type=int, default=0)
ap.add_argument('-s', type=int, default=1)
ap.add_argument('files', nargs='*')
a = ap.parse_args()
SRC = '/repo/src'
files = a.files or ['bits.rs', 'core_parser.rs', 'crc.rs', 'data.rs', 'errors.rs', 'header.rs', 'models.rs',
                    'parser.rs', 'parsing_utils.rs', 'serde_utils.rs', 'network/attributes.rs',
                    'network/frame_decoder.rs', 'network/mod.rs', 'network/models.rs', 'network/object_index.rs']

SUBST = [
    (r' <= ', [' < ']), (r' >= ', [' > ']), (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']),
    (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r'(?<=if )!', ['']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']),
    (r' << ', [' >> ']), (r' >> ', [' << ']), (r' \^ ', [' | ']), (r' & (?=\w)', [' | ']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
    (r'starts_with', ['ends_with']), (r'ends_with', ['starts_with']),
    (r'\.iter\(\)', ['.iter().rev()']), (r'\.rev\(\)', ['']),
    (r'\bas u32\b', ['as u16 as u32']), (r'\bas i32\b', ['as i16 as i32']), (r'\bas usize\b', ['as u8 as usize']),
    (r'\bas u8\b', ['as i8 as u8']),
    (r'read_u32\(\)', ['read_bits(31).map(|x| x as u32)', 'read_u32().map(|x| x & 0x7fff_ffff)']),
    (r'read_u64\(\)', ['read_u64().map(|x| x & (u64::MAX >> 1))']),
    (r'read_i32\(\)', ['read_i32().map(|x| x & 0x7fff_ffff)']),
    (r'read_u8\(\)', ['read_u8().map(|x| x & 0x7f)']),
    (r'read_i64\(\)', ['read_i64().map(|x| x & (i64::MAX))']),
    (r'i32::from_le_bytes', ['i32::from_be_bytes']), (r'f32::from_le_bytes', ['f32::from_be_bytes']),
    (r'u32::from_le_bytes', ['u32::from_be_bytes']),
    (r'\bwrapping_', ['saturating_']), (r'\bsaturating_', ['wrapping_']), (r'\bunwrap_or\(', ['unwrap_or_default(), (']),
    (r'\.first\(\)', ['.last()']), (r'\.last\(\)', ['.first()']),
    (r'or_insert\(', ['insert_entry(']), (r'peek_bits_max_computed', ['peek_bits_max_computed_x']),
    (r'\.skip\((\d+)\)', ['']), (r'Some\((\w+)\)(?=[,;]?$)', ['None']),
    (r'Ok\((\w+)\)(?=[,;]?$)', []),
    (r'(?<=if )(?!let\b)([^{]+)(?= \{$)', ['true', 'false']),
    (r'(?<=while )(?!let\b)([^{]+)(?= \{$)', ['false']),
    (r'(?<=#\[)serde\([^]]*\)', ['allow(unused)']),
    (r'split_once', ['rsplit_once']), (r'\brfind\b', ['find']), (r'\bfind\b', ['rfind']),
    (r'remove\((\w|&)', [None]),
]
INT = re.compile(r'(?<![\w.#"])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w."])')
STR = re.compile(r'"((?:[^"\\]|\\.)*)"')
IDX = 0
out = []


def emit(f, n, op, old, new):
    if old != new:
        out.append({'file': f, 'line': n + 1, 'op': op, 'old': old, 'new': new})


def code_only(line):
    i = line.find('//')
    return line if i < 0 or '"' in line[:i] else line[:i]


for f in files:
    lines = open(os.path.join(SRC, f)).read().split('\n')
    end = len(lines)
    for i, l in enumerate(lines):
        if l.startswith('#[cfg(test)]'):
            end = i
            break
    for i in range(end):
        l = lines[i]
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('use ') or s.startswith('pub use') or s.startswith('extern'):
            continue
        c = code_only(l)
        tail = l[len(c):]
        instr = lambda p: c[:p].count('"') % 2 == 1
        if f == 'data.rs':
            # tables: exchange a row's value with the next one's, spoil a key
            m = re.match(r'(\s*"[^"]*" => )(.*)$', l)
            m2 = re.match(r'(\s*"[^"]*" => )(.*)$', lines[i + 1]) if i + 1 < end else None
            if m and m2 and m.group(2) != m2.group(2) and i % 9 == 0:
                emit(f, i, 'row', l, m.group(1) + m2.group(2))
            if m and i % 23 == 0:
                emit(f, i, 'key', l, l.replace('" =>', 'X" =>'))
            continue
        if s.startswith('#[derive'):
            continue
        for pat, subs in SUBST:
            for m in re.finditer(pat, c):
                if instr(m.start()):
                    continue
                for sub in subs:
                    if sub is None:
                        continue
                    emit(f, i, pat, l, c[:m.start()] + sub + c[m.end():] + tail)
        if not s.startswith('#['):
            for m in INT.finditer(c):
                if instr(m.start()):
                    continue
                v = int(m.group(1).replace('_', ''), 0)
                for w in {v + 1, v - 1} if v > 0 else {1}:
                    emit(f, i, 'int', l, c[:m.start()] + str(w) + c[m.end():] + tail)
            for m in STR.finditer(c):
                if m.group(1):
                    emit(f, i, 'str', l, c[:m.end() - 1] + 'X' + c[m.end() - 1:] + tail)
        # delete a statement
        if s.endswith(';') and not re.match(r'(let (?!_ )|return|pub |const|static|type|mod|}|break|continue|\))', s):
            if s.count('(') == s.count(')') and not s.startswith('.') and not s.startswith(')'):
                emit(f, i, 'delete', l, '')
        # exchange two statements or match arms
        if i + 1 < end:
            n = lines[i + 1]
            ind = lambda x: len(x) - len(x.lstrip())
            if ind(l) == ind(n):
                if s.startswith('let ') and n.strip().startswith('let ') and s.endswith(';') and n.strip().endswith(';'):
                    emit(f, i, 'swap', l + '\n' + n, n + '\n' + l)
                a1 = re.match(r'(.*=> )(.*),$', l)
                a2 = re.match(r'(.*=> )(.*),$', n)
                if a1 and a2:
                    emit(f, i, 'arms', l + '\n' + n, a1.group(1) + a2.group(2) + ',\n' + a2.group(1) + a1.group(2) + ',')
                e1 = re.match(r'\s*(\w+),$', l)
                e2 = re.match(r'\s*(\w+),$', n)
                if e1 and e2 and re.search(r'[({]$', lines[i - 1]) and '(' in lines[i - 1]:
                    emit(f, i, 'args', l + '\n' + n, n + '\n' + l)

for k, m in enumerate(out):
    m['id'] = k
if a.n and len(out) > a.n:
    random.seed(a.s)
    out = sorted(random.sample(out, a.n), key=lambda m: m['id'])
for m in out:
    print(json.dumps(m))
