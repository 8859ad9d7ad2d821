"""clang JSON AST of the real C sources -> small tree.

Nothing is dropped except: parentheses, implicit no-op casts, declarations without bodies, `restrict`/`const`.
The preprocessor output is what clang sees with the flags of the real build, so every template instance
(float, double, float_complex, double_complex) is present as a separate function."""
import json, os, subprocess

FLAGS = ['-DPY_EXTENSION', '-DHAVE_C99_COMPLEX', '-DCYTHON_CCOMPLEX=1', '-I/usr/include/python3.12',
         '-I/usr/include/x86_64-linux-gnu/python3.12']


class Unsupported(Exception):
    pass


class N:
    """node: k kind, a children/attributes (dict), t type string"""
    __slots__ = ('k', 't', 'a', 'line')

    def __init__(self, k, t=None, line=None, **a):
        self.k, self.t, self.a, self.line = k, t, a, line

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f'{self.k}({self.t}; {self.a})'


def qt(d):
    t = d.get('type') or {}
    s = t.get('desugaredQualType') or t.get('qualType') or ''
    return norm_type(s)


def norm_type(s):
    for w in ('const', 'restrict', '__restrict', 'volatile', '__restrict__'):
        s = s.replace(w, ' ')
    s = ' '.join(s.split()).replace('* *', '**')
    return {'size_t': 'unsigned long', 'Py_ssize_t': 'long', 'ssize_t': 'long', 'pywt_index_t': 'long',
            'float_complex': '_Complex float', 'double_complex': '_Complex double'}.get(s, s)


class Conv:
    def __init__(self):
        self.enums = {}
        self.line = 0

    def e(self, d):
        k = d['kind']
        loc = d.get('range', {}).get('begin', {})
        loc = loc.get('expansionLoc', loc)
        if 'line' in loc:
            self.line = loc['line']
        ln = self.line
        t = qt(d)
        inner = d.get('inner', [])
        if k in ('ParenExpr', 'ConstantExpr', 'FullExpr'):
            return self.e(inner[0])
        if k == 'IntegerLiteral':
            return N('int', t, ln, v=int(d['value']))
        if k == 'CharacterLiteral':
            return N('int', t, ln, v=int(d['value']))
        if k == 'FloatingLiteral':
            return N('float', t, ln, v=d['value'])
        if k == 'ImaginaryLiteral':
            return N('imag', t, ln)
        if k == 'StringLiteral':
            return N('str', t, ln, v=d.get('value'))
        if k == 'DeclRefExpr':
            r = d['referencedDecl']
            if r['kind'] == 'EnumConstantDecl':
                if r['id'] not in self.enums:
                    raise Unsupported('enum ' + r['name'])
                return N('int', 'int', ln, v=self.enums[r['id']])
            if r['kind'] == 'FunctionDecl':
                return N('fn', t, ln, name=r['name'])
            return N('var', t, ln, id=r['id'], name=r['name'])
        if k == 'BinaryOperator':
            op = d['opcode']
            l, r = self.e(inner[0]), self.e(inner[1])
            if op == '=':
                return N('assign', t, ln, op=None, l=l, r=r)
            return N('bin', t, ln, op=op, l=l, r=r)
        if k == 'CompoundAssignOperator':
            l, r = self.e(inner[0]), self.e(inner[1])
            ct = norm_type((d.get('computeResultType') or {}).get('desugaredQualType')
                           or (d.get('computeResultType') or {}).get('qualType') or t)
            return N('assign', t, ln, op=d['opcode'][:-1], l=l, r=r, ct=ct)
        if k == 'UnaryOperator':
            return N('un', t, ln, op=d['opcode'], post=d.get('isPostfix', False), e=self.e(inner[0]))
        if k == 'ConditionalOperator':
            return N('cond', t, ln, c=self.e(inner[0]), x=self.e(inner[1]), y=self.e(inner[2]))
        if k == 'ArraySubscriptExpr':
            b, i = self.e(inner[0]), self.e(inner[1])
            return N('index', t, ln, b=b, i=i)
        if k == 'MemberExpr':
            return N('member', t, ln, b=self.e(inner[0]), f=d['name'], arrow=d.get('isArrow', False))
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            ck = d.get('castKind')
            x = self.e(inner[0])
            if ck in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr'):
                return x
            return N('cast', t, ln, ck=ck, e=x)
        if k == 'CallExpr':
            f = self.e(inner[0])
            return N('call', t, ln, f=f, args=[self.e(x) for x in inner[1:]])
        if k == 'UnaryExprOrTypeTraitExpr':
            at = d.get('argType', {})
            s = norm_type(at.get('desugaredQualType') or at.get('qualType') or (qt(inner[0]) if inner else ''))
            return N('sizeof', t, ln, of=s)
        if k == 'InitListExpr':
            return N('initlist', t, ln, es=[self.e(x) for x in inner])
        raise Unsupported('expression ' + k + f' line {ln}')

    def s(self, d):
        if not d:
            return N('null')
        k = d['kind']
        loc = d.get('range', {}).get('begin', {})
        loc = loc.get('expansionLoc', loc)
        if 'line' in loc:
            self.line = loc['line']
        ln = self.line
        inner = d.get('inner', [])
        if k == 'CompoundStmt':
            return N('block', None, ln, ss=[self.s(x) for x in inner])
        if k == 'NullStmt':
            return N('null', None, ln)
        if k == 'DeclStmt':
            r = []
            for v in inner:
                if v['kind'] != 'VarDecl':
                    if v['kind'] in ('TypedefDecl', 'RecordDecl', 'EnumDecl', 'StaticAssertDecl'):
                        continue
                    raise Unsupported('decl ' + v['kind'])
                if v.get('storageClass') == 'static':
                    raise Unsupported('static local')
                ini = [x for x in v.get('inner', []) if not x['kind'].endswith('Attr')]
                r.append((v['id'], v['name'], qt(v), self.e(ini[0]) if ini else None))
            return N('decl', None, ln, vs=r)
        if k == 'IfStmt':
            c = self.e(inner[0])
            a = self.s(inner[1])
            b = self.s(inner[2]) if len(inner) > 2 else N('null')
            return N('if', None, ln, c=c, x=a, y=b)
        if k == 'ForStmt':
            init, _, cond, inc, body = (inner + [{}] * 5)[:5]
            return N('block', None, ln, ss=[
                self.s(init) if init else N('null'),
                N('loop', None, ln, c=self.e(cond) if cond else N('int', 'int', ln, v=1),
                  body=self.s(body), inc=self.e(inc) if inc else None, do=False)])
        if k == 'WhileStmt':
            return N('loop', None, ln, c=self.e(inner[0]), body=self.s(inner[1]), inc=None, do=False)
        if k == 'DoStmt':
            return N('loop', None, ln, body=self.s(inner[0]), c=self.e(inner[1]), inc=None, do=True)
        if k == 'SwitchStmt':
            return N('switch', None, ln, c=self.e(inner[0]), body=self.s(inner[1]))
        if k == 'CaseStmt':
            v = self.e(inner[0])
            return N('case', None, ln, v=v, s=self.s(inner[-1]))
        if k == 'DefaultStmt':
            return N('default', None, ln, s=self.s(inner[0]))
        if k == 'BreakStmt':
            return N('break', None, ln)
        if k == 'ContinueStmt':
            return N('continue', None, ln)
        if k == 'ReturnStmt':
            return N('return', None, ln, e=self.e(inner[0]) if inner else None)
        if k == 'GotoStmt':
            return N('goto', None, ln, to=d['targetLabelDeclId'])
        if k == 'LabelStmt':
            return N('label', None, ln, id=d['declId'], s=self.s(inner[0]))
        return N('expr', None, ln, e=self.e(d))


class Fn:
    def __init__(self, name, rt, params, body):
        self.name, self.rt, self.params, self.body = name, rt, params, body   # params [(id,name,type)]


def load(src, cdir, extra=()):
    """-> {name: Fn or Unsupported message}, enum constants by name"""
    out = subprocess.run(['clang', '-fsyntax-only', '-w', '-std=c17', '-Xclang', '-ast-dump=json'] + FLAGS +
                         ['-I' + cdir, '-I' + os.path.dirname(cdir)] + list(extra) + [src], stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True)
    if out.returncode:
        raise Unsupported('clang: ' + out.stderr[-500:])
    tu = json.loads(out.stdout)
    fns, enums = {}, {}
    conv = Conv()
    for d in tu['inner']:
        if d['kind'] == 'EnumDecl':
            nxt = 0
            for c in d.get('inner', []):
                if c['kind'] != 'EnumConstantDecl':
                    continue
                ini = c.get('inner', [])
                if ini:
                    nxt = int(_const(ini[0]))
                enums[c['name']] = nxt
                conv.enums[c['id']] = nxt
                nxt += 1
    for d in tu['inner']:
        if d['kind'] != 'FunctionDecl':
            continue
        body = [x for x in d.get('inner', []) if x['kind'] == 'CompoundStmt']
        if not body:
            continue
        params = [(p['id'], p.get('name', ''), qt(p)) for p in d.get('inner', []) if p['kind'] == 'ParmVarDecl']
        try:
            rt = norm_type(d['type']['qualType'].split('(')[0].strip())
            fns[d['name']] = Fn(d['name'], rt, params, conv.s(body[0]))
        except Unsupported as e:
            fns[d['name']] = str(e)
        except Exception as e:          # system headers with unusual nodes
            fns[d['name']] = f'{type(e).__name__} {e}'
    return fns, enums


def _const(d):
    if 'value' in d:
        return d['value']
    if d['kind'] == 'UnaryOperator' and d['opcode'] == '-':
        return -int(_const(d['inner'][0]))
    return _const(d['inner'][0])


def shape(x, types, ids=None):
    """canonical form of a tree with declaration ids numbered and the given type words replaced, for comparing
    template instances"""
    ids = {} if ids is None else ids
    def ty(t):
        if t is None:
            return None
        for a, b in types:
            t = t.replace(a, b)
        return t
    def go(x):
        if isinstance(x, Fn):
            return ('fn', [go_id(p[0]) + (ty(p[2]),) for p in x.params], go(x.body))
        if isinstance(x, N):
            a = {}
            for k, v in sorted(x.a.items()):
                if k in ('id', 'to'):
                    v = go_id(v)
                elif k == 'name' or k == 'f' and isinstance(v, str):
                    v = ty(v)
                elif k in ('ct', 'of'):
                    v = ty(v)
                elif k == 'vs':
                    v = [(go_id(i), ty(t), go(e) if e is not None else None) for i, _, t, e in v]
                else:
                    v = go(v)
                a[k] = v
            if x.k == 'var':
                a.pop('name', None)
            # conversions between the real and complex domain and between precisions are value preserving (reals) and
            # differ between the instances
            if x.k == 'cast' and x.a['ck'] in ('FloatingCast', 'FloatingRealToComplex', 'FloatingComplexCast', 'IntegralRealToComplex'):
                return a['e']
            return (x.k, ty(x.t), tuple(sorted(a.items(), key=lambda kv: kv[0])))
        if isinstance(x, (list, tuple)):
            return [go(y) for y in x]
        return x
    def go_id(i):
        return ('#', ids.setdefault(i, len(ids)))
    return repr(go(x))


if __name__ == '__main__':
    import sys
    f, en = load(sys.argv[1], os.path.dirname(os.path.abspath(sys.argv[1])))
    for n in sys.argv[2:]:
        print(f[n] if isinstance(f[n], str) else f[n].body)
    print(en)
