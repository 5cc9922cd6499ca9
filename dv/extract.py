"""Mechanical extraction of the functions under verification from /repo.

clang parses the real translation unit (with the real deal.II / Trilinos /
OpenCASCADE headers) and prints its typed AST; nothing is rewritten by hand.
What the extraction drops: comments, debug-only Assert() macros (they are
compiled out with the Release flags), source formatting.  Templates are taken
as instantiated by the explicit instantiations in the sources."""
import hashlib, json, os, pickle, subprocess, sys, time, re, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('PIBEM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, 'build', 'ast')
INCS = ['/usr/lib/x86_64-linux-gnu/openmpi/include',
        '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi', '/usr/include/petsc',
        '/usr/include/trilinos', '/usr/include/hdf5/openmpi', '/usr/include/scotch',
        '/usr/include/suitesparse', '/usr/include/opencascade', '/usr/include/slepc']


def incflags():
    f = ['-I%s/include' % REPO]
    for i in INCS:
        f += ['-isystem', i]
    return f


class ExtractError(Exception):
    pass


class Node:
    __slots__ = ('kind', 'type', 'inner', 'a', 'comp')

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, self.type, {k: v for k, v in self.a.items() if k != 'id'})

    def __getstate__(self):
        return (self.kind, self.type, self.inner, self.a)

    def __setstate__(self, s):
        self.kind, self.type, self.inner, self.a = s
        self.comp = None


KEEP = ('name', 'value', 'opcode', 'castKind', 'isArrow', 'isPostfix', 'storageClass', 'init', 'id',
        'ctorType', 'hasElse', 'hasInit', 'hasVar', 'previousDecl', 'parentDeclContextId', 'isArray',
        'referencedMemberDecl', 'isImplicit', 'explicitlyDefaulted', 'bases', 'virtual', 'tagUsed',
        'anyInit', 'list', 'isUsed', 'labelDecl', 'valueCategory', 'computeLHSType', 'explicitlyDeleted', 'isReferenced')
DROPK = ('FullComment', 'TemplateArgument', 'ParagraphComment', 'AccessSpecDecl', 'FriendDecl')


class Loc:
    def __init__(self):
        self.file = None


_src = {}


def _srctext(f, off, n):
    if f not in _src:
        try:
            _src[f] = open(f, 'rb').read()
        except OSError:
            _src[f] = b''
    return _src[f][off:off + n].decode('utf8', 'replace')


def _upd(loc, L):
    if not isinstance(loc, dict):
        return
    for k in ('spellingLoc', 'expansionLoc'):
        if k in loc:
            _upd(loc[k], L)
    if 'file' in loc:
        L.file = loc['file']


def _conv(d, L, line):
    kind = d.get('kind')
    n = Node()
    n.comp = None
    n.kind = kind
    ty = d.get('type')
    n.type = (ty.get('desugaredQualType') or ty.get('qualType')) if ty else None
    a = {}
    for k in KEEP:
        if k in d:
            a[k] = d[k]
    if ty and 'desugaredQualType' in ty and ty['qualType'] != ty['desugaredQualType']:
        a['sugar'] = ty['qualType']
    for k in ('ctorType', 'computeLHSType'):
        if k in d and isinstance(d[k], dict):
            a[k] = d[k].get('desugaredQualType') or d[k].get('qualType')
    if 'argType' in d:
        a['argType'] = d['argType'].get('qualType')
    # locations (in document order so that the implicit "same file" works)
    for k in ('loc', 'range'):
        if k in d:
            if k == 'loc':
                _upd(d['loc'], L)
                l = d['loc']
                l = l.get('expansionLoc', l)
                if 'line' in l:
                    L.line = l['line']
            else:
                b = d['range'].get('begin', {})
                _upd(b, L)
                bb = b.get('expansionLoc', b)
                if 'line' in bb:
                    L.line = bb['line']
                a['line'] = getattr(L, 'line', None)
                if kind == 'FloatingLiteral':
                    sb = b.get('spellingLoc', b)
                    f = sb.get('file', L.file)
                    txt = _srctext(f, sb.get('offset', 0), sb.get('tokLen', 0)) if f else ''
                    a['text'] = txt
                _upd(d['range'].get('end', {}), L)
                e = d['range'].get('end', {})
                e = e.get('expansionLoc', e)
                if 'line' in e:
                    L.line = e['line']
    for k in ('referencedDecl', 'foundReferencedDecl', 'decl'):
        if k in d and isinstance(d[k], dict):
            r = d[k]
            a['ref' if k == 'referencedDecl' else k] = {
                'id': r.get('id'), 'kind': r.get('kind'), 'name': r.get('name'),
                'type': (r.get('type') or {}).get('desugaredQualType') or (r.get('type') or {}).get('qualType')}
    if kind == 'CXXNewExpr':
        for k in ('isArray', 'initStyle'):
            if k in d:
                a[k] = d[k]
    if kind == 'CXXDeleteExpr':
        for k in ('isArray', 'isArrayAsWritten'):
            if k in d:
                a[k] = d[k]
    inner = []
    for c in d.get('inner', ()):
        if not c or 'kind' not in c:
            m = Node()
            m.kind, m.type, m.inner, m.a, m.comp = 'Null', None, [], {}, None
            inner.append(m)
            continue
        ck = c['kind']
        if ck in DROPK or ck.endswith('Attr') or ck.endswith('Comment') or (ck.endswith('Type') and ck != 'UnresolvedType'):
            if ck == 'TemplateArgument':
                a.setdefault('targs', []).append(c.get('value', (c.get('type') or {}).get('qualType')))
            # still walk for location state
            _walkloc(c, L)
            continue
        inner.append(_conv(c, L, line))
    n.inner = _counting(inner) if kind == 'CompoundStmt' else inner
    n.a = a
    if kind in ('BinaryOperator', 'CXXOperatorCallExpr'):
        _update(n)
    return n


def _bare(x):
    while x.kind in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr') and len(x.inner) == 1:
        x = x.inner[0]
    return x


def _opname(x):
    return next((r.a['ref'].get('name') for r in _all(x.inner[0]) if r.a.get('ref')), None) if x.kind == 'CXXOperatorCallExpr' else None


def _place(x, y):
    """x and y name the same place"""
    x, y = _bare(x), _bare(y)
    if x.kind != y.kind or len(x.inner) != len(y.inner):
        return False
    if x.kind == 'DeclRefExpr':
        return x.a.get('ref') and x.a['ref']['id'] == y.a['ref']['id']
    if x.kind in ('IntegerLiteral', 'MemberExpr', 'UnaryOperator', 'BinaryOperator'):
        if x.a.get('opcode') in ('++', '--', '=') or any(x.a.get(k) != y.a.get(k) for k in ('value', 'name', 'opcode', 'referencedMemberDecl')):
            return False
    elif x.kind == 'CXXOperatorCallExpr':
        if _opname(x) not in ('operator[]', 'operator()') or _opname(x) != _opname(y):
            return False
        return all(_place(a, b) for a, b in zip(x.inner[1:], y.inner[1:]))
    elif x.kind not in ('ArraySubscriptExpr', 'CXXThisExpr'):
        return False
    return all(_place(a, b) for a, b in zip(x.inner, y.inner))


def _update(n):
    """x = x + y as x += y (numbers and tensors)"""
    if n.kind == 'BinaryOperator' and n.a.get('opcode') == '=':
        v = _bare(n.inner[1])
        if v.kind == 'BinaryOperator' and v.a.get('opcode') in ('+', '-') and v.type == n.type and _place(n.inner[0], v.inner[0]):
            n.kind, n.inner = 'CompoundAssignOperator', [n.inner[0], v.inner[1]]
            n.a = dict(n.a, opcode=v.a['opcode'] + '=')
    elif n.kind == 'CXXOperatorCallExpr' and len(n.inner) == 3 and _opname(n) == 'operator=' and re.match(r'(dealii::)?(Tensor|Point)<', (n.type or '').replace('const ', '')):
        v = _bare(n.inner[2])
        if _opname(v) in ('operator+', 'operator-') and len(v.inner) == 3 and _place(n.inner[1], v.inner[1]):
            r = next(x for x in _all(n.inner[0]) if x.a.get('ref'))
            r.a['ref'] = dict(r.a['ref'], name=_opname(v) + '=')
            n.inner = [n.inner[0], n.inner[1], v.inner[2]]


def _node(kind, a, inner, type=None):
    n = Node()
    n.kind, n.type, n.inner, n.a, n.comp = kind, type, inner, a, None
    return n


def _all(n):
    yield n
    for c in n.inner:
        yield from _all(c)


def _refs(n):
    return {x.a['ref']['id'] for x in _all(n) if x.a.get('ref')}


def _jumps(x):
    return x.kind == 'ContinueStmt' or (x.kind not in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'LambdaExpr') and any(_jumps(c) for c in x.inner))


def _step(x, last):
    """x is ++i (or i += c, when last)"""
    while x.kind in ('ExprWithCleanups', 'ParenExpr') and x.inner:
        x = x.inner[0]
    if x.kind == 'BinaryOperator' and x.a.get('opcode') == ',':
        return all(_step(c, last) for c in x.inner)
    if x.kind == 'UnaryOperator':
        return x.a.get('opcode') in ('++', '--')
    if x.kind == 'CompoundAssignOperator':
        return last and x.a.get('opcode') in ('+=', '-=')
    return x.kind == 'CXXOperatorCallExpr' and any(r.a.get('ref', {}).get('name') in (('operator++', 'operator--', 'operator+=') if last else ('operator++', 'operator--')) for r in _all(x.inner[0]) if r.a.get('ref'))


def _counting(stmts):
    """[..., T i = a; while (c) { ...; ++i; }, ...] as the for loop it is"""
    out = []
    for k, w in enumerate(stmts):
        if w.kind == 'WhileStmt' and len(w.inner) == 2 and w.inner[1].kind == 'CompoundStmt' and len(w.inner[1].inner) > 1 and not _jumps(w.inner[1]):
            cond, body = w.inner
            seen = _refs(cond)
            n = len(body.inner)
            while n > 1 and _step(body.inner[n - 1], n == len(body.inner)):
                n -= 1
            steps = body.inner[n:]
            if steps and any(_refs(x) & seen for x in steps):
                inc = steps[0]
                for x in steps[1:]:
                    inc = _node('BinaryOperator', {'opcode': ',', 'line': x.a.get('line')}, [inc, x], x.type)
                moved = set().union(*[_refs(x) for x in steps])
                ini = _node('Null', {}, [])
                if out and out[-1].kind == 'DeclStmt':
                    names = {d.a.get('id') for d in out[-1].inner}
                    if names & moved and not any(names & _refs(x) for x in stmts[k + 1:]) and all(d.kind == 'VarDecl' for d in out[-1].inner):
                        ini = out.pop()
                w = _node('ForStmt', w.a, [ini, _node('Null', {}, []), cond, inc, _node('CompoundStmt', body.a, body.inner[:n], body.type)], w.type)
        while w.kind == 'CompoundStmt' and len(w.inner) == 1 and w.inner[0].kind == 'ForStmt':
            w = w.inner[0]
        out.append(w)
    return out


def _walkloc(d, L):
    if 'loc' in d:
        _upd(d['loc'], L)
    if 'range' in d:
        _upd(d['range'].get('begin', {}), L)
        _upd(d['range'].get('end', {}), L)
    for c in d.get('inner', ()):
        if c:
            _walkloc(c, L)


def _dump(src, filt):
    """One clang run over a source file; returns list of top-level Nodes."""
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + '/include/*.h')) + [src]
    for f in files:
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    h.update((filt + open(os.path.abspath(__file__)).read()).encode())
    key = os.path.join(CACHE, h.hexdigest()[:32] + '.pkl')
    if os.path.exists(key):
        try:
            with open(key, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    cmd = ['clang++-18', '-std=c++17', '-DNDEBUG'] + incflags() + [
        '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractError('clang cannot parse %s:\n%s' % (src, p.stderr.decode()[-2000:]))
    s = p.stdout.decode()
    dec = json.JSONDecoder()
    i, out, L = 0, [], Loc()
    while i < len(s):
        while i < len(s) and s[i] in ' \n\r\t':
            i += 1
        if i >= len(s):
            break
        if s[i] != '{':
            j = s.find('\n', i)
            i = j + 1 if j >= 0 else len(s)
            continue
        o, i = dec.raw_decode(s, i)
        out.append(_conv(o, L, None))
    sys.setrecursionlimit(20000)
    os.makedirs(CACHE, exist_ok=True)
    tmp = key + '.%d.tmp' % os.getpid()
    try:
        with open(tmp, 'wb') as f:
            pickle.dump(out, f, protocol=4)
        os.replace(tmp, key)
    except Exception:
        pass
    return out


_ws = re.compile(r'\s+')


def norm_type(s):
    """Canonical spelling of a type / signature."""
    if s is None:
        return None
    s = s.replace('dealii::', '').replace('std::__cxx11::', 'std::').replace('std::', '')
    s = s.replace('class ', '').replace('struct ', '')
    s = s.replace('basic_string<char, char_traits<char>, allocator<char>>', 'string')
    s = s.replace('basic_string<char>', 'string')
    return _ws.sub(' ', s).strip()


class Func:
    def __init__(self, cls, node, unit):
        self.cls, self.node, self.unit = cls, node, unit
        self.name = node.a.get('name')
        self.sig = norm_type(node.type)
        self.params = [c for c in node.inner if c.kind == 'ParmVarDecl']
        self.body = next((c for c in node.inner if c.kind in ('CompoundStmt', 'CXXTryStmt')), None)
        self.inits = [c for c in node.inner if c.kind == 'CXXCtorInitializer']
        self.kind = node.kind
        self.static = node.a.get('storageClass') == 'static'

    @property
    def qname(self):
        return (self.cls + '::' if self.cls else '') + self.name

    def __repr__(self):
        return '<fn %s %s>' % (self.qname, self.sig)


_FREE = re.compile(r'(?m)^ {0,2}(?:[\w:<>&*,]+\s+)+[&*]*(\w+)\s*\((?:[^;{}()]|\([^()]*\))*\)\s*(?:noexcept\s*)?\{')
_CONST = re.compile(r'(?m)^(?:static |const |constexpr |inline )+[\w:]+ +(\w+) *(?:=|\{)')


def helpers(src):
    """The functions and constants at namespace level that a source file uses and defines (or an included header does)."""
    def text(p):
        return re.sub(r'//[^\n]*|/\*.*?\*/', '', open(p, errors='replace').read(), flags=re.S)
    path = src if src.startswith('/') else os.path.join(REPO, src)
    if not os.path.exists(path):
        return []
    main, out = text(path), set()
    texts = [main] + [text(h) for h in map(lambda x: os.path.join(REPO, 'include', x), re.findall(r'#include\s*[<"]([\w./]+)[>"]', main)) if os.path.exists(h)]
    for k, tx in enumerate(texts):
        for m in list(_FREE.finditer(tx)) + list(_CONST.finditer(tx)):
            nm = m.group(1)
            if k and m.group(0)[:1] == ' ':
                continue            # (a member)
            head = m.group(0)[:m.start(1) - m.start(0)].split()
            if nm in ('if', 'for', 'while', 'switch', 'main', 'catch', 'operator') or not head or head[0][0] in ',:' or head[0] in ('return', 'else', 'new', 'class', 'struct', 'namespace', 'using', 'virtual', 'case'):
                continue
            if len(re.findall(r'(?<![\w:.>])%s\b' % nm, main)) > (1 if k == 0 else 0):
                out.add(nm)
    return sorted(out)


class Program:
    """All extracted declarations, linked by (class, name, signature)."""

    def __init__(self):
        self.funcs = {}       # (cls,name) -> [Func]
        self.records = {}     # cls -> {field: (type, initnode)}
        self.byid = {}        # decl id -> Func   (ids are unique per dump: prefixed)
        self.statics = {}     # (cls,name) -> VarDecl node
        self.seconds = 0.0
        self.sources = []
        self.loaded = set()
        self.bases = {}

    def load(self, specs):
        """specs: list of (source basename, filter)."""
        t0 = time.time()
        specs = list(specs)
        for src in sorted({s[0] for s in specs}):
            specs += [(src, nm) for nm in helpers(src) if (src, nm) not in specs]
        specs = [s for s in specs if s not in self.loaded]
        with ThreadPoolExecutor(8) as ex:
            dumps = list(ex.map(lambda s: _dump(s[0] if s[0].startswith('/') else '%s/%s' % (REPO, s[0]), s[1]), specs))
        for s, tops in zip(specs, dumps):
            self.loaded.add(s)
            self.sources.append(s[0])
            self._index(tops, s)
        self.seconds += time.time() - t0
        return self

    def _index(self, tops, unit):
        ctx = {}       # id -> class name

        def clsname(n):
            nm = n.a.get('name')
            ta = n.a.get('targs')
            if n.kind == 'ClassTemplateSpecializationDecl' and ta:
                nm = '%s<%s>' % (nm, ', '.join(norm_type(str(x)) for x in ta))
            return nm

        # a specialization is named once, where its arguments are given
        for n in tops:
            if n.kind == 'ClassTemplateSpecializationDecl' and n.a.get('targs') and n.a.get('id'):
                ctx[n.a['id']] = clsname(n)

        def rec(n, scope, tmpl):
            k = n.kind
            if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                if tmpl and k == 'CXXRecordDecl':
                    return              # uninstantiated pattern
                nm = clsname(n)
                full = nm
                if n.a.get('id'):
                    full = ctx.setdefault(n.a['id'], full)
                if not n.inner:
                    return
                flds = {}
                if nm is None:
                    return
                for c in n.inner:
                    if c.kind == 'FieldDecl':
                        flds[c.a.get('name')] = (norm_type(c.type), c.inner[0] if c.inner else None)
                if flds or full not in self.records:
                    self.records[full] = flds
                if n.a.get('bases'):
                    self.bases[full] = [norm_type(b['type'].get('desugaredQualType') or b['type']['qualType'])
                                        for b in n.a['bases']]
                for c in n.inner:
                    rec(c, full, False)
            elif k in ('FunctionTemplateDecl', 'ClassTemplateDecl'):
                for c in n.inner:
                    if c.kind in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                        # instantiations follow the pattern; patterns have dependent types
                        rec(c, scope, 'pattern' if c is next((x for x in n.inner if x.kind == c.kind), None) else False)
                    elif c.kind == 'ClassTemplateSpecializationDecl':
                        rec(c, scope, False)
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                if tmpl == 'pattern' and not n.a.get('targs'):
                    return
                cls = scope
                if cls is None and k != 'FunctionDecl':
                    cls = ctx.get(n.a.get('parentDeclContextId'), '?')
                f = Func(cls, n, unit)
                lst = self.funcs.setdefault((cls, f.name), [])
                old = next((g for g in lst if g.sig == f.sig), None)
                if old is None:
                    lst.append(f)
                elif old.body is None and f.body is not None:
                    lst[lst.index(old)] = f
                if n.a.get('id'):
                    self.byid[(unit, n.a['id'])] = (cls, f.name, f.sig)
            elif k == 'VarDecl':
                cls = scope or ctx.get(n.a.get('parentDeclContextId'))
                if n.inner or (cls, n.a.get('name')) not in self.statics:
                    self.statics[(cls, n.a.get('name'))] = n
            elif k in ('NamespaceDecl', 'LinkageSpecDecl'):
                for c in n.inner:
                    rec(c, scope, False)
            elif k == 'EnumDecl':
                pass
        for n in tops:
            rec(n, None, False)

    def find(self, cls, name, sig=None, nparams=None):
        c = self.funcs.get((cls, name), [])
        if sig is not None:
            c2 = [f for f in c if f.sig == norm_type(sig)]
            if c2:
                c = c2
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        b = [f for f in c if f.body is not None]
        return b or c

    def one(self, cls, name, sig=None, contains=None):
        c = [f for f in self.find(cls, name, sig) if f.body is not None]
        if contains is not None:
            c = [f for f in c if contains in f.sig]
        if len(c) != 1:
            raise ExtractError('cannot identify %s::%s%s: %d candidates %s' % (cls, name, sig or '', len(c), [f.sig for f in c]))
        return c[0]
