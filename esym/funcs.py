"""Which functions of the repository a harness entry contains after inlining:
taken from the line tables of a second compilation of the same unit."""
import os
import re


def functions(ll, repo, entries):
    """names of the functions in repo that are reachable from the entries"""
    meta = {}
    defs = {}
    cur = None
    for l in open(ll, errors='replace'):
        if l.startswith('!'):
            m = re.match(r'!(\d+) = (?:distinct )?!(DILocation|DISubprogram|DILexicalBlock\w*|DIFile)\((.*)\)', l)
            if m:
                meta[m.group(1)] = (m.group(2), m.group(3))
        elif l.startswith('define'):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
            d = re.search(r'!dbg !(\d+)', l)
            cur = m.group(1)
            defs[cur] = (set([d.group(1)] if d else []), set())
        elif l.startswith('}'):
            cur = None
        elif cur:
            defs[cur][0].update(re.findall(r'!dbg !(\d+)', l))
            defs[cur][1].update(re.findall(r'@("[^"]+"|[\w.$]+)', l))

    def files(s):
        m = re.search(r'file: !(\d+)', s)
        t = meta.get(m.group(1), ('', ''))[1] if m else ''
        a = re.search(r'filename: "([^"]*)"', t)
        b = re.search(r'directory: "([^"]*)"', t)
        return os.path.join(b.group(1) if b else '', a.group(1) if a else '')
    seen = set()

    def walk(i, out):
        while i and (i not in seen):
            seen.add(i)
            k, s = meta.get(i, ('', ''))
            if k == 'DILocation':
                m = re.search(r'inlinedAt: !(\d+)', s)
                if m:
                    walk(m.group(1), out)
            elif k == 'DISubprogram':
                if files(s).startswith(repo + '/'):
                    m = re.search(r'linkageName: "([^"]*)"', s) or re.search(r'name: "([^"]*)"', s)
                    out.add(os.path.relpath(files(s), os.path.join(repo, 'src/main/cxx')) + ':' + m.group(1))
                return
            m = re.search(r'scope: !(\d+)', s)
            i = m.group(1) if m else None
    out = set()
    todo = [f for f in defs if any(e in f for e in entries)]
    done = set(todo)
    while todo:
        f = todo.pop()
        for i in defs[f][0]:
            walk(i, out)
        for c in defs[f][1]:
            if c in defs and c not in done:
                done.add(c)
                todo.append(c)
    return sorted(out)
