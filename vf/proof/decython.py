"""decython.py FILE.pyx: print a Python rendering of a Cython module, made mechanically from Cython's own parse tree (run with the interpreter that has Cython).
Nothing is dropped but docstrings, cimports, ctypedefs and the nogil blocks' headers. What Cython adds is made explicit:
  typed argument          x = vf_arg('T', x)          (conversion and its errors)
  fused type              T = vf_fuse('T', x)         (the instance selected by the argument)
  typed local             x = vf_new('T');  every later assignment  x = vf_set('T', value)
  <T> e, &x[i], NULL      vf_cast('T', e), vf_addr(x, i), NULL
  IF / DEF                evaluated by Cython's parser (HAVE_C99_CPLX = 1, as the build configures it)
"""
import os, re, sys
from Cython.Compiler import Nodes as N, ExprNodes as E, Options
from Cython.Compiler.TreeFragment import parse_from_strings, StringParseContext
from Cython.Compiler import Errors


class W:
    def __init__(self):
        self.out, self.ind, self.types, self.fused = [], 0, [{}], {}

    def line(self, s):
        self.out.append('    ' * self.ind + s)

    # ---------------------------------------------------------------- types
    def decl(self, base, d):
        """(type text, name) of a declarator on a base type"""
        t = self.base(base)
        while True:
            k = type(d).__name__
            if k == 'CPtrDeclaratorNode':
                t += ' *'
                d = d.base
            elif k == 'CConstDeclaratorNode' or k == 'CConstTypeNode':
                d = d.base
            elif k == 'CNameDeclaratorNode':
                return t, d.name, d
            elif k == 'CFuncDeclaratorNode':
                d = d.base
            elif k == 'CArrayDeclaratorNode':
                t += ' [%s]' % (self.x(d.dimension) if d.dimension is not None else '')
                d = d.base
            else:
                raise NotImplementedError(k)

    def base(self, b):
        k = type(b).__name__
        if k == 'CSimpleBaseTypeNode':
            s = ''
            if b.is_basic_c_type and not (b.name or '').endswith('size_t'):
                s = ('unsigned ', '', 'signed ')[b.signed] + ('short ' * -b.longness if b.longness < 0 else 'long ' * b.longness)
            p = '.'.join(list(b.module_path or []) + [b.name or ''])
            return (s + p + (' complex' if b.complex else '')).strip()
        if k == 'MemoryViewSliceTypeNode':
            def ax(a):
                f = lambda v: '' if v is None or v.is_none else self.x(v)
                s = f(a.start) + ':' + f(a.stop)
                return s + (':' + f(a.step) if not a.step.is_none else '')
            return self.base(b.base_type_node) + '[' + ', '.join(ax(a) for a in b.axes) + ']'
        if k in ('CConstTypeNode', 'CConstOrVolatileTypeNode'):
            return self.base(b.base_type)
        if k == 'CComplexBaseTypeNode':
            return self.decl(b.base_type, b.declarator)[0]
        if k == 'CNestedBaseTypeNode':
            return self.base(b.base_type) + '.' + b.name
        if k == 'TemplatedTypeNode':
            return self.base(b.base_type_node)
        raise NotImplementedError(k)

    # ---------------------------------------------------------------- expressions
    def x(self, n):
        return getattr(self, 'x_' + type(n).__name__, self.x_other)(n)

    def x_other(self, n):
        if isinstance(n, (E.BinopNode, E.PrimaryCmpNode)):
            return self.binop(n)
        raise NotImplementedError(type(n).__name__)

    def binop(self, n):
        op = n.operator.replace('_', ' ')
        s = f'{self.x(n.operand1)} {op} {self.x(n.operand2)}'
        c = getattr(n, 'cascade', None)
        while c is not None:
            s += f" {c.operator.replace('_', ' ')} {self.x(c.operand2)}"
            c = c.cascade
        return f'({s})'

    def x_BoolBinopNode(self, n):
        return f'({self.x(n.operand1)} {n.operator} {self.x(n.operand2)})'

    def x_NotNode(self, n):
        return f'(not {self.x(n.operand)})'

    def unop(self, n):
        return f'({n.operator}{self.x(n.operand)})'
    x_UnaryMinusNode = x_UnaryPlusNode = x_TildeNode = unop

    def x_IntNode(self, n):
        return n.value

    def x_FloatNode(self, n):
        return n.value

    def x_ImagNode(self, n):
        return str(n.value) + 'j'

    def x_NoneNode(self, n):
        return 'None'

    def x_NullNode(self, n):
        return 'NULL'

    def x_BoolNode(self, n):
        return str(bool(n.value))

    def x_NameNode(self, n):
        return str(n.name)

    def x_EllipsisNode(self, n):
        return '...'

    def x_StringNode(self, n):
        v = n.unicode_value if n.unicode_value is not None else n.value
        return repr(str(v) if not isinstance(v, bytes) else v.decode('utf-8'))
    x_UnicodeNode = lambda self, n: repr(str(n.value))
    x_IdentifierStringNode = x_StringNode

    def x_BytesNode(self, n):
        return repr(bytes(n.value))

    def x_JoinedStrNode(self, n):
        return "''.join([%s])" % ', '.join(self.x(v) for v in n.values)

    def x_FormattedValueNode(self, n):
        return f'vf_fstr({self.x(n.value)})'

    def x_TupleNode(self, n):
        return '(' + ''.join(self.x(a) + ', ' for a in n.args) + ')'

    def x_ListNode(self, n):
        return '[' + ', '.join(self.x(a) for a in n.args) + ']'

    def x_DictNode(self, n):
        return '{' + ', '.join(f'{self.x(i.key)}: {self.x(i.value)}' for i in n.key_value_pairs) + '}'

    def x_AttributeNode(self, n):
        return f'{self.x(n.obj)}.{n.attribute}'

    def x_IndexNode(self, n):
        return f'{self.x(n.base)}[{self.x(n.index)}]'

    def x_SliceNode(self, n):
        f = lambda v: '' if v is None or isinstance(v, E.NoneNode) else self.x(v)
        return f'slice({f(n.start) or None}, {f(n.stop) or None}, {f(n.step) or None})'

    def x_SliceIndexNode(self, n):
        f = lambda v: '' if v is None else self.x(v)
        return f'{self.x(n.base)}[{f(n.start)}:{f(n.stop)}]'

    def x_CondExprNode(self, n):
        return f'({self.x(n.true_val)} if {self.x(n.test)} else {self.x(n.false_val)})'

    def x_SimpleCallNode(self, n):
        return f'{self.x(n.function)}({", ".join(self.x(a) for a in n.args)})'

    def x_GeneralCallNode(self, n):
        a = []

        def pos(p):
            if isinstance(p, E.TupleNode):
                a.extend(self.x(q) for q in p.args)
            elif isinstance(p, E.AsTupleNode):
                a.append('*' + self.x(p.arg))
            elif isinstance(p, E.AddNode):
                pos(p.operand1)
                pos(p.operand2)
            else:
                raise NotImplementedError('call arguments')

        def kw(k):
            if k is None:
                return
            if isinstance(k, E.DictNode):
                for i in k.key_value_pairs:
                    a.append(f'{i.key.value}={self.x(i.value)}')
            elif isinstance(k, E.MergedDictNode):
                for q in k.keyword_args:
                    kw(q)
            else:
                a.append('**' + self.x(k))
        pos(n.positional_args)
        kw(n.keyword_args)
        return f'{self.x(n.function)}({", ".join(a)})'

    def x_TypecastNode(self, n):
        if n.base_type is None:
            raise NotImplementedError('cast')
        t, _, _ = self.decl(n.base_type, n.declarator)
        return f'vf_cast({t!r}, {self.x(n.operand)})'

    def x_CythonArrayNode(self, n):
        b = n.base_type_node
        dims = ', '.join((self.x(a.start) if not a.start.is_none else '') + ':' + (self.x(a.stop) if not a.stop.is_none else '') for a in b.axes)
        shape = ', '.join(self.x(a.stop) for a in b.axes)
        return f'vf_view({self.base(b.base_type_node)!r}, {self.x(n.operand)}, ({shape},))'

    def x_AmpersandNode(self, n):
        o = n.operand
        if isinstance(o, E.IndexNode):
            return f'vf_addr({self.x(o.base)}, {self.x(o.index)})'
        return f'vf_addr({self.x(o)})'

    def x_SizeofTypeNode(self, n):
        return 'vf_sizeof(%r)' % self.decl(n.base_type, n.declarator)[0]

    def comp(self, n, o, c):
        body, cond = n.loop.body, []
        gens = []
        loop = n.loop
        while True:
            gens.append(f'for {self.x(loop.target)} in {self.x(loop.iterator.sequence)}')
            b = loop.body
            while isinstance(b, N.IfStatNode):
                gens.append(f'if {self.x(b.if_clauses[0].condition)}')
                b = b.if_clauses[0].body
            if isinstance(b, N.ForInStatNode):
                loop = b
                continue
            break
        if isinstance(b, N.ExprStatNode):
            b = b.expr
        if isinstance(b, E.DictComprehensionAppendNode):
            v = f'{self.x(b.key_expr)}: {self.x(b.value_expr)}'
        else:
            v = self.x(getattr(b, 'expr', None) or b.arg)
        return o + v + ' ' + ' '.join(gens) + c

    def x_ComprehensionNode(self, n):
        o, c = ('[', ']') if 'list' in str(n.type) else ('{', '}')
        return self.comp(n, o, c)

    def x_GeneratorExpressionNode(self, n):
        return self.comp(n, '(', ')')

    def x_YieldExprNode(self, n):
        return self.x(n.arg)

    # ---------------------------------------------------------------- statements
    def s(self, n):
        f = getattr(self, 's_' + type(n).__name__, None)
        if f is None:
            raise NotImplementedError(type(n).__name__)
        f(n)

    def block(self, n):
        self.ind += 1
        k = len(self.out)
        self.s(n)
        if len(self.out) == k:
            self.line('pass')
        self.ind -= 1

    def s_StatListNode(self, n):
        for q in n.stats:
            self.s(q)

    def s_PassStatNode(self, n):
        self.line('pass')

    def skip(self, n):
        pass
    s_CImportStatNode = s_FromCImportStatNode = s_CTypeDefNode = s_FusedTypeNode = s_CDefExternNode = skip

    def s_ExprStatNode(self, n):
        if isinstance(n.expr, (E.StringNode, E.UnicodeNode)):
            return
        self.line(self.x(n.expr))

    def typ(self, name):
        return self.types[-1].get(name)

    def assign(self, lhs, rhs):
        if isinstance(lhs, E.NameNode) and self.typ(lhs.name):
            t = self.typ(lhs.name)
            f = t.split('[')[0]
            self.line(f'{lhs.name} = vf_set({t!r}, {rhs}' + (f', {f}' if f in ('cdata_t', 'data_t') else '') + ')')
        elif isinstance(lhs, (E.TupleNode, E.ListNode)):
            self.line(f'{self.x(lhs)} = {rhs}')
            for a in lhs.args:
                if isinstance(a, E.NameNode) and self.typ(a.name):
                    self.assign(a, a.name)
        else:
            self.line(f'{self.x(lhs)} = {rhs}')

    def s_SingleAssignmentNode(self, n):
        if isinstance(n.rhs, E.ImportNode):
            self.line(f'import {n.rhs.module_name.value} as {n.lhs.name}')
            return
        self.assign(n.lhs, self.x(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        self.line(f'__v = {self.x(n.rhs)}')
        for l in n.lhs_list:
            self.assign(l, '__v')

    def s_InPlaceAssignmentNode(self, n):
        if isinstance(n.lhs, E.NameNode) and self.typ(n.lhs.name):
            self.assign(n.lhs, f'{self.x(n.lhs)} {n.operator} {self.x(n.rhs)}')
        else:
            self.line(f'{self.x(n.lhs)} {n.operator}= {self.x(n.rhs)}')

    def s_CVarDefNode(self, n):
        for d in n.declarators:
            t, name, dd = self.decl(n.base_type, d)
            self.types[-1][name] = t
            if getattr(dd, 'default', None) is not None:
                self.line(f'{name} = vf_set({t!r}, {self.x(dd.default)})')
            elif len(self.types) > 1:
                self.line(f'{name} = vf_new({t!r})')

    def s_IfStatNode(self, n):
        for i, c in enumerate(n.if_clauses):
            self.line(('elif ' if i else 'if ') + self.x(c.condition) + ':')
            self.block(c.body)
        if n.else_clause is not None:
            self.line('else:')
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        t = n.target
        self.line(f'for {self.x(t)} in {self.x(n.iterator.sequence)}:')
        self.ind += 1
        for a in (t.args if isinstance(t, E.TupleNode) else [t]):
            if isinstance(a, E.NameNode) and self.typ(a.name):
                self.assign(a, a.name)
        self.ind -= 1
        self.block(n.body)
        if n.else_clause is not None:
            self.line('else:')
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.line(f'while {self.x(n.condition)}:')
        self.block(n.body)
        if n.else_clause is not None:
            self.line('else:')
            self.block(n.else_clause)

    def s_BreakStatNode(self, n):
        self.line('break')

    def s_ContinueStatNode(self, n):
        self.line('continue')

    def s_ReturnStatNode(self, n):
        self.line('return' + (' ' + self.x(n.value) if n.value is not None else ''))

    def s_RaiseStatNode(self, n):
        e = n.exc_type
        self.line('raise' + (' ' + self.x(e) if e is not None else '') + (f'({self.x(n.exc_value)})' if n.exc_value is not None else '') +
                  (f' from {self.x(n.cause)}' if n.cause is not None else ''))

    def s_ReraiseStatNode(self, n):
        self.line('raise')

    def s_AssertStatNode(self, n):
        c = getattr(n, 'condition', None) or n.cond
        self.line(f'assert {self.x(c)}')

    def s_GILStatNode(self, n):
        self.line('if True:')
        self.block(n.body)

    def s_TryExceptStatNode(self, n):
        self.line('try:')
        self.block(n.body)
        for c in n.except_clauses:
            p = c.pattern
            ps = '' if not p else ' ' + (self.x(p[0]) if len(p) == 1 else '(' + ', '.join(self.x(q) for q in p) + ')')
            self.line('except' + ps + (f' as {self.x(c.target)}' if c.target is not None else '') + ':')
            self.block(c.body)
        if n.else_clause is not None:
            self.line('else:')
            self.block(n.else_clause)

    def s_TryFinallyStatNode(self, n):
        self.line('try:')
        self.block(n.body)
        self.line('finally:')
        self.block(n.finally_clause)

    def s_WithStatNode(self, n):
        self.line(f'with {self.x(n.manager)}' + (f' as {self.x(n.target)}' if n.target is not None else '') + ':')
        self.block(n.body)

    def s_FromImportStatNode(self, n):
        m = n.module
        self.line(f"from {'.' * max(m.level or 0, 0)}{m.module_name.value} import " + ', '.join(f'{a} as {t.name}' if a != t.name else a for a, t in n.items))

    def s_DelStatNode(self, n):
        self.line('del ' + ', '.join(self.x(a) for a in n.args))

    def s_GlobalNode(self, n):
        self.line('global ' + ', '.join(n.names))

    # ---------------------------------------------------------------- functions and classes
    def func(self, name, args, body, star=None, dstar=None, decorators=()):
        params, pre, types, fused = [], [], {}, {}
        for a in args:
            t, nm, _ = self.decl(a.base_type, a.declarator)
            if not nm and isinstance(a.base_type, N.CSimpleBaseTypeNode):
                nm, t = t, ''
            if isinstance(a.base_type, N.CSimpleBaseTypeNode) and a.base_type.name is None:
                t = ''
            params.append(nm + (f'={self.x(a.default)}' if a.default is not None else ''))
            b = t.split('[')[0]
            if b in ('cdata_t', 'data_t') and b not in fused:
                fused[b] = nm
                pre.append(f'{b} = vf_fuse({b!r}, {nm})')
            if t and t != 'object':
                types[nm] = t
                pre.append(f'{nm} = vf_arg({t!r}, {nm})')
        if star:
            params.append('*' + star.name)
        if dstar:
            params.append('**' + dstar.name)
        for d in decorators or ():
            self.line('@' + self.x(d.decorator))
        self.line(f'def {name}({", ".join(params)}):')
        self.ind += 1
        for p in pre:
            self.line(p)
        self.ind -= 1
        self.types.append(types)
        self.block(body)
        self.types.pop()
        self.line('')

    def s_DefNode(self, n):
        self.func(n.name, n.args, n.body, n.star_arg, n.starstar_arg, n.decorators)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while not isinstance(d, N.CFuncDeclaratorNode):
            d = d.base
        self.func(d.base.name, d.args, n.body)

    def klass(self, name, body, bases=''):
        self.line(f'class {name}{bases}:')
        self.types.append({})
        self.types[-1] = {}
        self.ind += 1
        k = len(self.out)
        stats = body.stats if isinstance(body, N.StatListNode) else [body]
        for q in stats:
            if isinstance(q, N.CVarDefNode):
                continue
            if isinstance(q, N.PropertyNode):
                bs = q.body.stats if isinstance(q.body, N.StatListNode) else [q.body]
                names = []
                for f in bs:
                    if isinstance(f, N.DefNode):
                        names.append((f.name, f'_{q.name}{f.name}'))
                        self.func(names[-1][1], f.args, f.body)
                g = dict(names)
                self.line(f"{q.name} = property({g.get('__get__')}, {g.get('__set__')}, {g.get('__del__')})")
                continue
            self.s(q)
        if len(self.out) == k:
            self.line('pass')
        self.ind -= 1
        self.types.pop()
        self.line('')

    def s_CClassDefNode(self, n):
        self.klass(n.class_name, n.body)

    def s_PyClassDefNode(self, n):
        self.klass(n.name, n.body)


def convert(path):
    src = open(path, encoding='utf-8').read()
    src = re.sub(r'(?m)^include\s+"config\.pxi"', 'DEF HAVE_C99_CPLX = 1', src)
    def inc(m):
        p = os.path.join(os.path.dirname(os.path.abspath(path)), m.group(1))
        return open(p, encoding='utf-8').read() if os.path.exists(p) else ''
    src = re.sub(r'(?m)^include\s+["\']([^"\']+)["\'].*$', inc, src)
    Errors.init_thread()
    Errors.LEVEL = 9
    ctx = StringParseContext('mod')
    tree = parse_from_strings('mod', src, context=ctx)
    w = W()
    for q in tree.body.stats:
        k = len(w.out)
        try:
            w.ind = 0
            w.s(q)
        except NotImplementedError as e:
            del w.out[k:]
            w.ind, w.types = 0, w.types[:1]
            nm = getattr(q, 'name', None) or getattr(q, 'class_name', None) or getattr(getattr(getattr(q, 'declarator', None), 'base', None), 'name', None)
            w.line(f'# not rendered: {nm} ({e})')
            if nm:
                w.line(f'{nm} = vf_missing({str(nm)!r}, {str(e)!r})')
    return '\n'.join(w.out) + '\n'


if __name__ == '__main__':
    sys.stdout.write(convert(sys.argv[1]))
