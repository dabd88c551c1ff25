"""Edits of source text: ('file', old, new) or ('file', 'FN start-of-definition', new text of the whole definition)."""
def apply(root, edits):
    for f, old, new in edits:
        p = f'{root}/{f}'
        t = open(p).read()
        if old.startswith('FN '):
            i = t.find(old[3:])
            if i < 0: raise SystemExit(f'{f}: {old[3:]!r} not found')
            j = t.index('{', i + len(old) - 3 if '{' not in old else i); d = 0
            while True:
                if t[j] == '{': d += 1
                elif t[j] == '}':
                    d -= 1
                    if d == 0: break
                j += 1
            t = t[:i] + new + t[j + 1:]
        else:
            if t.count(old) != 1: raise SystemExit(f'{f}: {old[:60]!r} occurs {t.count(old)} times')
            t = t.replace(old, new)
        open(p, 'w').write(t)
