"""Mechanical annotation: copies a source file of the current tree and inserts loop contracts after the heads of named loops
(function name, ordinal of the loop in it).  Nothing is dropped and nothing else is changed (line numbers stay the same).
If the function or loop is not there any more, the bundle is undecided (never a verdict)."""
import os, re

def blank(s):
    """same length, comments and literals blanked"""
    def b(m): return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', b, s, flags=re.S)

def match(s, i, o, c):
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    return -1

def find_function(s, name):
    """(start, end) of the body braces of the definition of name in blanked source"""
    for m in re.finditer(r'\b%s\s*\(' % re.escape(name), s):
        e = match(s, m.end() - 1, '(', ')')
        if e < 0: continue
        r = re.match(r'[\s\w]*\{', s[e + 1:])
        if r and not re.match(r'\s*;', s[e + 1:]):
            o = e + 1 + r.end() - 1
            # not inside another function: depth 0 before
            if s[:m.start()].count('{') - s[:m.start()].count('}') == 0:
                return o, match(s, o, '{', '}')
    return None

def loops(s, o, c):
    """end offsets (just after the closing parenthesis) of the while/for heads, do-while tails excluded"""
    r = []; dos = 0
    for m in re.finditer(r'\b(while|for|do)\b', s[o:c]):
        if m.group(1) == 'do': dos += 1; continue
        p = s.find('(', o + m.end()); e = match(s, p, '(', ')')
        if m.group(1) == 'while' and dos and re.match(r'\s*;', s[e + 1:]): dos -= 1; continue
        r.append(e + 1)
    return r

def apply(specs, src, outdir, cflags):
    byfile = {}
    for sp in specs: byfile.setdefault(sp['file'], []).append(sp)
    for f, sps in byfile.items():
        text = open(os.path.join(src, f), errors='replace').read(); b = blank(text); ins = []
        for sp in sps:
            if 'subst' in sp:
                continue
            fn = find_function(b, sp['function'])
            if not fn: return 'no function %s in %s' % (sp['function'], f)
            ls = loops(b, *fn)
            if 'cut' in sp:                    # recursive calls of the function go to its contract
                rec = [m.start() for m in re.finditer(r'\b%s\s*\(' % re.escape(sp['function']), b[fn[0]:fn[1]])]
                if not rec: return '%s is not recursive' % sp['function']
                for at in rec: ins.append((fn[0] + at, 'vp_cut_'))
                continue
            if sp.get('count') is not None and len(ls) != sp['count']: return '%s has %d loops, %d expected' % (sp['function'], len(ls), sp['count'])
            if sp['loop'] >= len(ls): return 'no loop %d in %s' % (sp['loop'], sp['function'])
            if 'before' in sp:                 # a cut point: a ghost call before the loop statement
                kw = max(m.start() for m in re.finditer(r'\b(while|for)\b', b[:ls[sp['loop']]]) if fn[0] < m.start() and match(b, b.find('(', m.end()), '(', ')') + 1 == ls[sp['loop']])
                ins.append((kw, ' ' + sp['before'] + ' '))
            ins.append((ls[sp['loop']], ' ' + ' '.join(sp['text'].split()) + ' '))
        for at, t in sorted(ins, reverse=True): text = text[:at] + t + text[at:]
        for sp in sps:
            if 'subst' in sp:
                text, n = re.subn(sp['subst'][0], sp['subst'][1], text)
                if n == 0: return 'pattern %s not found in %s' % (sp['subst'][0], f)
        p = os.path.join(outdir, f); os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write('#line 1 "%s"\n' % os.path.join(src, f) + text)
    return None
