#!/usr/bin/env python3
"""Rewrites an `edition = "2023"` .proto (closed enums, explicit presence) as
proto2 so that the sandbox's protoc 3.21 accepts it. Semantics are the same for
the features the repository uses."""
import re, sys
src, dst = sys.argv[1:3]
out = []
stack = []
for line in open(src, encoding='utf-8'):
    code = re.sub(r'//.*', '', line)
    if re.match(r'\s*edition\s*=', code):
        out.append('syntax = "proto2";\n'); continue
    if re.match(r'\s*option\s+features\.', code):
        out.append('\n'); continue
    line = re.sub(r',?\s*features\.[a-z_]+\s*=\s*[A-Z_]+', '', line)
    line = re.sub(r'\[\s*,\s*', '[', line)
    line = re.sub(r'\s*\[\s*\]', '', line)
    r = re.match(r'(\s*reserved\s+)([A-Za-z_][\w\s,]*);', code)
    if r:
        names = [n.strip() for n in r.group(2).split(',')]
        line = r.group(1) + ', '.join('"%s"' % n for n in names) + ';\n'
    m = re.match(r'\s*(message|enum|oneof|extend|service)\b', code)
    in_msg = bool(stack) and stack[-1] == 'message'
    if in_msg and re.match(r'\s*[A-Za-z_][\w.]*\s+\w+\s*=\s*\d+', code) and not re.match(
            r'\s*(repeated|optional|required|option|reserved|extensions)\b', code):
        line = re.sub(r'^(\s*)', r'\1optional ', line, count=1)
    out.append(line)
    kind = m.group(1) if m else 'other'
    for ch in re.sub(r'"[^"]*"', '', code):
        if ch == '{': stack.append(kind)
        elif ch == '}': stack.pop()
open(dst, 'w', encoding='utf-8').write(''.join(out))
