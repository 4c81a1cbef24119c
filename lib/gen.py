"""Mechanical extraction: a build copy of a /repo source file for the verifier.

The copy is the file itself, byte for byte, except for:
  * bit-field widths are dropped (`unsigned f:2;` -> `uint8_t f;`): CBMC 6.11
    aborts on byte updates of a struct with both bit-fields and a flexible
    array member.  `VP_BITS_f` is defined to the width that was dropped, so
    that a contract can require the stored value to fit.
  * after the definition of a function named in `stubs`, a `#define f
    vp_stub_f` makes the later calls use the contract `vp_stub_f` of the
    harness; the body of f stays in the file, untouched.  With "~f" only the
    recursive calls inside of f use the contract, with "^f" also the calls
    before the definition.
#line directives keep the line numbers of /repo.
"""
import re, os

def find_def(text, name):
    """(start of signature, end of body, signature) of the definition of name."""
    for m in re.finditer(r'^[A-Za-z_][^\n;{}#]*?\b%s\s*\(' % re.escape(name), text, re.M):
        i = m.end() - 1
        depth = 0
        while i < len(text):
            if text[i] == '(':
                depth += 1
            elif text[i] == ')':
                depth -= 1
                if depth == 0:
                    break
            i += 1
        j = i + 1
        while j < len(text) and text[j] in ' \t\r\n':
            j += 1
        if j >= len(text) or text[j] != '{':
            continue
        end = match_brace(text, j)
        if end is None:
            continue
        return m.start(), end, text[m.start():i + 1]
    return None

def match_brace(text, i):
    depth = 0
    n = len(text)
    while i < n:
        c = text[i]
        if text.startswith('//', i):
            i = text.find('\n', i)
            if i < 0:
                return None
            continue
        if text.startswith('/*', i):
            i = text.find('*/', i) + 2
            continue
        if c == '"' or c == "'":
            q = c
            i += 1
            while i < n and text[i] != q:
                if text[i] == '\\':
                    i += 1
                i += 1
        elif c == '{':
            depth += 1
        elif c == '}':
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    return None

BITF = re.compile(r'^(\s*)unsigned(?:\s+int)?\s+(\w+)\s*:\s*(\d+)\s*;', re.M)

def gen(src, dst, stubs=(), bitfields=False):
    """Write dst from src. Returns the list of stubs that could not be applied."""
    text = open(src).read()
    missing = []
    pre = ''
    edits = []
    for f in stubs:
        obj = f.startswith('&')     # also when it is not called: "&f"
        rec = f.startswith('~')     # only the recursive calls of f: "~f"
        early = f.startswith('^')   # the calls before the definition too: "^f"
        f = f.lstrip('&~^')
        d = find_def(text, f)
        if not d:
            missing.append(f)
            continue
        start, end, sig = d
        sig = re.sub(r'\bstatic\b|\binline\b', '', sig)
        sig = re.sub(r'\b%s\s*\(' % re.escape(f), 'vp_stub_%s(' % f, sig, count=1)
        line = text.count('\n', 0, end) + 1
        if early:
            l0 = text.count('\n', 0, start) + 1
            pre += '#define %s(...) vp_stub_%s(__VA_ARGS__)\n' % (f, f)
            edits.append((start, '\n#undef %s\n#line %d "%s"\n' % (f, l0, src)))
        if rec:
            body = text.index('{', start + len(text[start:].split('{')[0]))
            l0 = text.count('\n', 0, start) + 1
            edits.append((body + 1, '\n#define %s(...) vp_stub_%s(__VA_ARGS__)\n#line %d "%s"\n' % (f, f, text.count('\n', 0, body) + 1, src)))
            edits.append((start, '\n%s;\n#line %d "%s"\n' % (' '.join(sig.split()), l0, src)))
            edits.append((end, '\n#undef %s\n#line %d "%s"\n' % (f, line, src)))
            continue
        edits.append((end, '\n%s;\n#define %s%s vp_stub_%s%s\n#line %d "%s"\n' % (
            ' '.join(sig.split()), f, '' if obj else '(...)', f, '' if obj else '(__VA_ARGS__)', line, src)))
    for pos, ins in sorted(edits, reverse=True):
        text = text[:pos] + ins + text[pos:]
    if bitfields:
        def sub(m):
            nonlocal pre
            pre += '#define VP_BITS_%s %s\n' % (m.group(2), m.group(3))
            return '%suint8_t %s;' % (m.group(1), m.group(2))
        text = BITF.sub(sub, text)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, 'w') as f:
        f.write(pre + '#line 1 "%s"\n' % src + text)
    return missing
