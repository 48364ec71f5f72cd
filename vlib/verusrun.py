"""Verus on functions extracted mechanically from /repo on every run.

A unit (verus/<unit>.py) names the items it takes from /repo and the contract text that is put around
them: requires/ensures after a signature, invariants at the k-th loop, ghost code at an anchor, and a
few declared rewrites where Verus does not accept the original expression. Everything else of a
function's text is the text in /repo. What the extraction drops: comments, attributes, visibility,
`log::*!` calls, and `debug_assert!(c)`, which becomes the obligation `assert(c)`.
"""
import hashlib
import importlib.util
import json
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
import sys
sys.path.insert(0, str(Path(__file__).resolve().parent))
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))


class Lost(Exception):
    pass


def mask(s):
    """Same length; comments and the contents of literals blanked."""
    out = list(s)
    i, n = 0, len(s)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif s.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if s.startswith('/*', j):
                    d += 1
                    j += 2
                elif s.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif (m := re.compile(r'b?r(#*)"').match(s, i)) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            j = s.find('"' + m.group(1), m.end())
            j = n if j < 0 else j
            blank(m.end(), j)
            i = j + 1 + len(m.group(1))
        elif c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            blank(i + 1, j)
            i = j + 1
        elif c == "'":
            m = re.compile(r"'(\\x[0-9a-fA-F]{2}|\\u\{[^}]*\}|\\.|[^\\'])'").match(s, i)
            if m:
                blank(i + 1, m.end() - 1)
                i = m.end()
            else:
                i += 1
        else:
            i += 1
    return ''.join(out)


def no_comments(s):
    m = mask(s)
    out = []
    i = 0
    while i < len(s):
        if s.startswith('//', i) and m[i] == ' ':
            j = s.find('\n', i)
            i = len(s) if j < 0 else j
        elif s.startswith('/*', i) and m[i] == ' ':
            j = i
            while j < len(s) and m[j] in ' \n' and not s.startswith('*/', j):
                j += 1
            i = j + 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def close(m, i):
    """Index of the bracket matching the one at i in masked text."""
    pairs = {'{': '}', '(': ')', '[': ']'}
    st = []
    for k in range(i, len(m)):
        if m[k] in pairs:
            st.append(pairs[m[k]])
        elif st and m[k] == st[-1]:
            st.pop()
            if not st:
                return k
    raise Lost('unbalanced brackets')


class Src:
    def __init__(self, rel):
        p = REPO / rel
        if not p.exists():
            raise Lost(f'{rel} is gone')
        self.rel = rel
        self.text = no_comments(p.read_text())
        # test modules are not looked at
        self.text = re.sub(r'#\[cfg\(test\)\]\s*mod\s+\w+\s*\{.*\Z', '', self.text, flags=re.S)
        self.mask = mask(self.text)

    def impl(self, header):
        """Range of the body of the impl whose header (whitespace collapsed) contains `header`."""
        hits = []
        for m in re.finditer(r'\bimpl\b', self.mask):
            b = self.mask.find('{', m.start())
            h = ' '.join(self.text[m.start():b].split())
            if h == header or (header.endswith('*') and h.startswith(header[:-1])):
                hits.append((b, close(self.mask, b)))
        return hits

    def fn(self, name, impl=None, within=None):
        ranges = [(0, len(self.text))] if impl is None else self.impl(impl)
        hits = []
        for a, b in ranges:
            for m in re.finditer(r'\bfn\s+' + re.escape(name) + r'\b', self.mask[a:b]):
                s = a + m.start()
                # free function: brace depth 0
                if impl is None and self.mask[:s].count('{') - self.mask[:s].count('}') != (1 if within else 0):
                    continue
                o = self.brace(s)
                hits.append((s, o, close(self.mask, o)))
        if within:
            # a function nested in another one's body
            _, o, e = self._range(within, impl)
            hits = [h for h in hits if o < h[0] < e]
        if len(hits) != 1:
            raise Lost(f'{self.rel}: fn {name}{" in " + impl if impl else ""}: {len(hits)} matches')
        s, o, e = hits[0]
        return self.text[s:o].strip(), self.text[o:e + 1]

    def _range(self, name, impl=None):
        for a, b in [(0, len(self.text))] if impl is None else self.impl(impl):
            for m in re.finditer(r'\bfn\s+' + re.escape(name) + r'\b', self.mask[a:b]):
                s = a + m.start()
                if self.mask[:s].count('{') - self.mask[:s].count('}') == (0 if impl is None else 1):
                    o = self.brace(s)
                    return s, o, close(self.mask, o)
        raise Lost(f'{self.rel}: fn {name}')

    def brace(self, s):
        d = 0
        for k in range(s, len(self.mask)):
            c = self.mask[k]
            if c in '([':
                d += 1
            elif c in ')]':
                d -= 1
            elif c == '{' and d == 0:
                return k
        raise Lost('no body')

    def item(self, kind, name):
        """struct/enum/const/static, without attributes and visibility"""
        m = [m for m in re.finditer(r'\b' + kind + r'\s+' + re.escape(name) + r'\b', self.mask)]
        if len(m) != 1:
            raise Lost(f'{self.rel}: {kind} {name}: {len(m)} matches')
        s = m[0].start()
        d = 0
        for k in range(s, len(self.mask)):
            c = self.mask[k]
            if c in '([':
                d += 1
            elif c in ')]':
                d -= 1
            elif c == '{' and d == 0:
                e = close(self.mask, k)
                if kind in ('const', 'static'):
                    continue
                return self.text[s:e + 1]
            elif c == ';' and d == 0:
                return self.text[s:k + 1]
        raise Lost(f'{kind} {name}: no end')


def drop_log(body):
    while True:
        m = re.search(r'\blog::\w+!\s*\(', mask(body))
        if not m:
            return body
        mk = mask(body)
        e = close(mk, m.end() - 1)
        k = e + 1
        if k < len(mk) and mk[k] == ';':
            k += 1
        body = body[:m.start()] + body[k:]


def debug_asserts(body):
    while True:
        mk = mask(body)
        m = re.search(r'\bdebug_assert!\s*\(', mk)
        if not m:
            return body
        e = close(mk, m.end() - 1)
        inner = body[m.end():e]
        # the message, if any, follows the first comma at depth 0
        d, cut = 0, None
        mi = mask(inner)
        for k, c in enumerate(mi):
            if c in '([{':
                d += 1
            elif c in ')]}':
                d -= 1
            elif c == ',' and d == 0:
                cut = k
                break
        cond = inner if cut is None else inner[:cut]
        body = body[:m.start()] + f'assert({cond})' + body[e + 1:]


def loops(body):
    """(keyword position, position of the loop's brace), in text order"""
    mk = mask(body)
    out = []
    for m in re.finditer(r'\b(loop|while|for)\b', mk):
        if m.group(1) == 'for' and re.match(r'\s*<', mk[m.end():]):
            continue
        d = 0
        for k in range(m.end(), len(mk)):
            c = mk[k]
            if c in '([':
                d += 1
            elif c in ')]':
                d -= 1
            elif c == '{' and d == 0:
                out.append((m.start(), k))
                break
    return out


def skeleton(text):
    """The shape of the code: everything but names, numbers, literals and operators' operands."""
    t = drop_log(text)
    mk = mask(t)
    toks = re.findall(r'\b(?:if|else|match|loop|while|for|in|return|break|continue|let|fn|mut|as|move)\b|\b\w+\s*(?=\()|[{}();?]|=>|\w*\?', mk)
    return hashlib.sha256(' '.join(''.join(x.split()) for x in toks).encode()).hexdigest()[:16]


def ws(p):
    """An anchor: literal text with flexible whitespace"""
    return re.compile(r'\s*'.join(re.escape(x) for x in re.findall(r'\w+|[^\w\s]', p)))


def unchain(body):
    """`if let P = E && C { B }` without an else is `if let P = E { if C { B } }`, and so is `if C && let P = E { B }`"""
    i = 0
    while True:
        mk = mask(body)
        m = re.compile(r'\bif\b(?!\s*let\b)').search(mk, i)
        if not m:
            break
        i = m.end()
        d, k, amp = 0, m.end(), None
        while k < len(mk) and (mk[k] != '{' or d) and not mk.startswith('=>', k):
            if amp is None and not d and re.compile(r'&&\s*let\b').match(mk, k):
                amp = k
            d += (mk[k] in '([') - (mk[k] in ')]')
            k += 1
        if k == len(mk) or mk[k] != '{':  # the guard of an arm
            continue
        e = close(mk, k)
        if amp is not None and not re.match(r'\s*else\b', mk[e + 1:]):
            body = body[:amp] + '{ if ' + body[amp + 2:e + 1] + ' }' + body[e + 1:]
    i = 0
    while True:
        mk = mask(body)
        m = re.compile(r'\bif\s+let\b').search(mk, i)
        if not m:
            return body
        d, k, amp = 0, m.end(), None
        while mk[k] != '{' or d:
            if amp is None and not d and mk.startswith('&&', k):
                amp = k
            d += (mk[k] in '([') - (mk[k] in ')]')
            k += 1
        e = close(mk, k)
        if amp is not None and not re.match(r'\s*else\b', mk[e + 1:]):
            body = body[:amp] + '{ if ' + body[amp + 2:e + 1] + ' }' + body[e + 1:]
        i = m.end()


class Fn:
    def __init__(self, file, name, impl=None, ret='r', spec='', loops=(), ins=(), subs=(), sig=(), head='', emit_name=None, within=None, without=()):
        """within: the function it is nested in; without: nested functions left out of the body (under contract on their own);
        ins: (where, anchor, text) with where in before|after|start|end; subs: (anchor, replacement) on the body;
        sig: (anchor, replacement) on the signature"""
        self.__dict__.update(locals())

    def label(self):
        return (self.impl + '::' if self.impl else '') + self.name

    def build(self, skel):
        sig, body = Src(self.file).fn(self.name, self.impl, self.within)
        for n in self.without:
            mk = mask(body)
            m = re.search(r'\bfn\s+' + re.escape(n) + r'\b', mk)
            if not m:
                raise Lost(f'{self.label()}: nested fn {n} is gone')
            d, k = 0, m.start()
            while mk[k] != '{' or d:
                d += (mk[k] in '([') - (mk[k] in ')]')
                k += 1
            body = body[:m.start()] + body[close(mk, k) + 1:]
        skel[self.label()] = skeleton(sig + body)
        body = debug_asserts(drop_log(body))
        body = unchain(re.sub(r'#!?\[[^\]]*\]', '', body))
        for a, b in self.sig:
            r = re.compile(a[3:], re.S) if a.startswith('re:') else ws(a)
            if len(r.findall(sig)) != 1:
                raise Lost(f'{self.label()}: signature: {a!r}')
            sig = r.sub(lambda _: b, sig)
        for s in self.subs:
            a, b = s[0], s[1]
            r = re.compile(a[3:], re.S) if a.startswith('re:') else ws(a)
            k = len(r.findall(body))
            want = s[2] if len(s) > 2 else 1
            if k != want and not (want == '*'):
                raise Lost(f'{self.label()}: rewrite of {a!r}: {k} matches')
            body = r.sub(b if a.startswith('re:') else (lambda _: b), body)
        # loops, last first
        ls = loops(body)
        if len(ls) != len(self.loops):
            raise Lost(f'{self.label()}: {len(ls)} loops instead of {len(self.loops)}')
        marks = []
        for where, a, text in self.ins:
            if where == 'start':
                marks.append((1, text))
                continue
            if where == 'end':
                marks.append((len(body) - 1, text))
                continue
            hit = list(ws(a).finditer(body))
            if len(hit) != 1:
                raise Lost(f'{self.label()}: anchor {a!r}: {len(hit)} matches')
            marks.append((hit[0].start() if where == 'before' else hit[0].end(), text))
        for (kw, br), spec in zip(ls, self.loops):
            if isinstance(spec, tuple):
                spec, pre = spec
                marks.append((kw, pre))
            marks.append((br, '\n' + spec + '\n'))
        for pos, text in sorted(marks, key=lambda x: -x[0]):
            body = body[:pos] + '\n' + text + '\n' + body[pos:]
        # return type
        sig = re.sub(r'\s+', ' ', sig).strip()
        where = ''
        mk = mask(sig)
        m = re.search(r'\bwhere\b', mk)
        if m:
            sig, where = sig[:m.start()].strip(), ' ' + sig[m.start():].rstrip(', ')
        o = sig.index('(') if '<' not in sig.split('(')[0] else sig.index('(', sig.index('>'))
        e = close(mask(sig), o)
        m = re.match(r'\s*->\s*(.*)$', sig[e + 1:], re.S)
        if m:
            sig = sig[:e + 1] + f' -> ({self.ret}: {m.group(1).strip()})'
        if self.emit_name:
            sig = re.sub(r'\bfn\s+\w+', 'fn ' + self.emit_name, sig, count=1)
        return f'{self.head}{sig}{where}\n{self.spec}\n{body}\n'


class Item:
    def __init__(self, file, kind, name, subs=(), prefix=''):
        self.__dict__.update(locals())

    def build(self, skel):
        t = Src(self.file).item(self.kind, self.name)
        t = re.sub(r'#\[[^\]]*\]', '', t)
        t = re.sub(r'\bpub(\([^)]*\))?\s+', '', t)
        t = re.sub(r'#\[[^\]]*\]\s*', '', t)
        for a, b in self.subs:
            r = re.compile(a[3:], re.S) if a.startswith('re:') else ws(a)
            if not r.search(t):
                raise Lost(f'{self.kind} {self.name}: rewrite of {a!r}')
            t = r.sub(b if a.startswith('re:') else (lambda _: b), t)
        return self.prefix + t + '\n'


class Gen:
    """Text computed from the source (for example a table as a spec sequence)"""
    def __init__(self, f):
        self.f = f

    def build(self, skel):
        return self.f(Src)


def load(unit):
    p = VERIF / 'verus' / f'{unit}.py'
    spec = importlib.util.spec_from_file_location('unit_' + unit, p)
    m = importlib.util.module_from_spec(spec)
    m.__dict__.update(Fn=Fn, Item=Item, Gen=Gen, Lost=Lost)
    spec.loader.exec_module(m)
    return m


def assemble(m):
    skel = {}
    parts = []
    owner = []      # (first line, function label)
    line = 1
    for x in m.PARTS:
        t = x if isinstance(x, str) else x.build(skel)
        t = re.sub(r'\b(?:open|closed)\s+(?=spec\b)', '', re.sub(r'\bpub(\([^)]*\))?\s+(?=\w)', '', t))   # one module
        if isinstance(x, Fn):
            owner.append((line, line + t.count('\n'), x.label()))
        parts.append(t)
        line += t.count('\n') + 1
    return '\n'.join(parts) + '\n', skel, owner


def run_unit(unit, scratch, timeout=300):
    t0 = time.time()
    m = load(unit)
    out = dict(unit=unit, status='UNDECIDED', obligations=0, discharged=0, failed=[], output='', why='', trust_failure=False,
               functions=[x.label() for x in m.PARTS if isinstance(x, Fn)], dropped=getattr(m, 'DROPS', []), assumed=getattr(m, 'ASSUMED', []))
    try:
        text, skel, owner = assemble(m)
    except Lost as ex:
        out['why'] = f'lost anchor: {ex}'
        return out
    base = {}
    bp = VERIF / 'verus' / 'skeletons.json'
    if bp.exists():
        base = json.loads(bp.read_text()).get(unit, {})
    out['skeletons'] = skel
    same = base == skel
    scratch.mkdir(parents=True, exist_ok=True)
    f = scratch / f'{unit}.rs'
    f.write_text(text)
    env = {k: v for k, v in os.environ.items() if k not in ('RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS')}
    cmd = ['verus', f.name, '--crate-type=lib', '--output-json', '--time', '--multiple-errors', '6'] + list(getattr(m, 'FLAGS', []))
    try:
        r = subprocess.run(cmd, cwd=scratch, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        out['why'] = f'no answer in {timeout} s'
        return out
    try:
        j = json.loads(r.stdout)
        v = j['verification-results']
    except Exception:
        out['why'] = 'verus gave no result: ' + (r.stderr or r.stdout)[:1500]
        return out
    out['output'] = r.stderr
    out['solver_ms'] = j.get('times-ms', {}).get('smt', {}).get('total')
    out['wall_s'] = round(time.time() - t0, 1)
    ver, err = v.get('verified', 0), v.get('errors', 0)
    out['obligations'], out['discharged'] = ver + err, ver
    if v.get('success'):
        out['status'] = 'PROVED'
        return out
    errs = re.findall(r'^error(?:\[\w+\])?: (.*)\n\s*--> [^:\n]+:(\d+):', r.stderr, re.M)
    wrong = [x for x in errs if 'simplifies to false' in x[0]]
    if wrong:
        err = len(wrong)
        out['obligations'] += err
    # an obligation the solver gives up on is undecided; one that it refuses is a failure
    refused = [x for x in errs if not re.search(r'rlimit|resource limit', x[0], re.I)]
    if (not wrong and (v.get('encountered-vir-error') or err == 0)) or not refused:
        out['why'] = 'not accepted: ' + '; '.join(e for e, _ in errs[:4]) + ' ' + r.stderr[:1200]
        return out
    out['status'] = 'FAILED'
    for e, ln in errs:
        ln = int(ln)
        fn = next((l for a, b, l in owner if a <= ln <= b), 'lemma')
        out['failed'].append(dict(what=f'{unit}: {fn}: {e}', line=text.split('\n')[ln - 1].strip()))
    out['failed'] = out['failed'] or [dict(what=f'{unit}: proof failed')]
    out['trust_failure'] = same
    return out


def run_units(units, scratch):
    if not units:
        return []
    with ThreadPoolExecutor(max_workers=4) as ex:
        return list(ex.map(lambda u: run_unit(u, Path(scratch) / 'verus'), units))


if __name__ == '__main__':
    import sys
    if sys.argv[1] == '--record':
        d = {}
        for p in sorted((VERIF / 'verus').glob('*.py')):
            m = load(p.stem)
            skel = {}
            for x in m.PARTS:
                if not isinstance(x, str):
                    x.build(skel)
            d[p.stem] = skel
        (VERIF / 'verus' / 'skeletons.json').write_text(json.dumps(d, indent=1, sort_keys=True) + '\n')
    else:
        for u in sys.argv[1:]:
            r = run_unit(u, Path('/tmp/verus'))
            print(r['output'][-6000:]); r['why'] = r['why'][:300]
            print({k: v for k, v in r.items() if k in ('status', 'obligations', 'discharged', 'why', 'trust_failure', 'wall_s')}, *[x['what'] + ' @ ' + x.get('line','') for x in r['failed']], sep='\n')
