"""Parser and evaluator for the small C/C++ texts that dredd emits: helper
functions and call sites.  Placeholders: «L» etc. stand for operand texts,
TY_n for a builtin type name, TN_n for a type name with underscores."""
import re
from core import ToolLimit
class Bad(Exception):
    "The emitted text is not well-formed in the supported grammar."
TOK = re.compile(r'\s+|/\*.*?\*/|//[^\n]*|(«[^»]*»)|(⟦[^⟧]*⟧)|([A-Za-z_][A-Za-z_0-9⟦]*(?:⟦[^⟧]*⟧[A-Za-z_0-9]*)*|[A-Za-z_]\w*)|(\d+\.\d*|\d+)|("(?:[^"\\]|\\.)*")|(->|<<=|>>=|::|\+\+|--|\+=|-=|\*=|/=|%=|&=|\|=|\^=|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^~!<>=(){}\[\],;?:.])', re.S)
def lex(s):
    i, out = 0, []
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise Bad('cannot tokenise: ' + s[i:i+30])
        if m.lastindex: out.append(m.group(0))
        i = m.end()
    return out
TYPEWORDS = {'const', 'volatile', 'int', 'unsigned', 'long', 'char', 'short', 'signed', 'bool', '_Bool', 'float', 'double', 'void', 'static', 'inline', 'auto', 'uint64_t', 'size_t'}
BINP = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '>': 7, '<=': 7, '>=': 7, '==': 6, '!=': 6,
        '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}
ASG = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
class P:
    def __init__(s, text): s.t = lex(text); s.i = 0
    def pk(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else ''
    def eat(s, x=None):
        y = s.pk()
        if x is not None and y != x: raise Bad(f'expected {x!r}, got {y!r} in {" ".join(s.t)[:200]}')
        if y == '': raise Bad('unexpected end')
        s.i += 1; return y
    def istype(s):
        x = s.pk()
        return x in TYPEWORDS or x.startswith('⟦') or (x == 'std' and s.pk(1) == '::')
    def type(s):
        "Type as a tuple of tokens."
        out = []
        while True:
            x = s.pk()
            if x == 'std':
                out += [s.eat(), s.eat('::'), s.eat()]
                if s.pk() == '<':
                    d = 0
                    while True:
                        y = s.eat(); out.append(y)
                        if y == '<': d += 1
                        if y == '>':
                            d -= 1
                            if d == 0: break
            elif x in TYPEWORDS or x.startswith('⟦') or x in ('*', '&', '&&') and out: out.append(s.eat())
            else: break
        if not out: raise Bad('type expected at ' + s.pk())
        return tuple(out)
    def functions(s):
        fs = []
        while s.pk():
            t = s.type()
            name = s.eat()
            if not re.match(r'[A-Za-z_]', name): raise Bad('function name ' + name)
            s.eat('(')
            ps = []
            while s.pk() != ')':
                pt = s.type(); ps.append((pt, s.eat()))
                if s.pk() == ',': s.eat()
                elif s.pk() != ')': raise Bad('parameter list')
            s.eat(')')
            fs.append(dict(t=tuple(x for x in t if x not in ('static', 'inline')), name=name, params=ps, body=s.stmt()))
        return fs
    def stmt(s):
        x = s.pk()
        if x == '{':
            s.eat(); b = []
            while s.pk() != '}': b.append(s.stmt())
            s.eat(); return ('block', b)
        if x == 'if':
            s.eat(); s.eat('('); c = s.expr(); s.eat(')')
            a = s.stmt(); e = None
            if s.pk() == 'else': s.eat(); e = s.stmt()
            return ('if', c, a, e)
        if x == 'return':
            s.eat()
            if s.pk() == ';': s.eat(); return ('return', None)
            e = s.expr(); s.eat(';'); return ('return', e)
        if x == ';': s.eat(); return ('nop',)
        if x.startswith('«') and s.pk().startswith('«S'): s.eat(); return ('opstmt', x)
        if s.istype() and not (x == 'std'):
            t = s.type(); n = s.eat(); s.eat('='); e = s.expr(); s.eat(';'); return ('decl', t, n, e)
        if x == 'switch': raise ToolLimit('switch in emitted text')
        e = s.expr(); s.eat(';'); return ('expr', e)
    def expr(s):
        a = s.assign()
        while s.pk() == ',':
            s.eat(); a = ('bin', ',', a, s.assign())
        return a
    def assign(s):
        a = s.cond()
        if s.pk() in ASG:
            o = s.eat(); return ('bin', o, a, s.assign())
        return a
    def cond(s):
        a = s.binary(1)
        if s.pk() == '?':
            s.eat(); b = s.expr(); s.eat(':'); return ('cond', a, b, s.cond())
        return a
    def binary(s, lv):
        a = s.unary()
        while s.pk() in BINP and BINP[s.pk()] >= lv:
            o = s.eat(); b = s.binary(BINP[o] + 1); a = ('bin', o, a, b)
        return a
    def unary(s):
        x = s.pk()
        if x in ('!', '~', '-', '+', '*', '&', '++', '--'):
            s.eat(); return ('un', x, s.unary())
        return s.postfix()
    def postfix(s):
        a = s.primary()
        while True:
            x = s.pk()
            if x == '(':
                s.eat(); args = []
                while s.pk() != ')':
                    args.append(s.assign())
                    if s.pk() == ',': s.eat()
                    elif s.pk() != ')': raise Bad('argument list at ' + s.pk())
                s.eat(); a = ('call', a, args)
            elif x in ('++', '--'): s.eat(); a = ('post', x, a)
            else: return a
    def primary(s):
        x = s.eat()
        if x == '(':
            e = s.expr(); s.eat(')'); return ('paren', e)
        if x == '[':
            s.eat('&'); s.eat(']'); s.eat('('); s.eat(')'); s.eat('->'); t = s.type()
            s.eat('{'); s.eat('return'); e = s.expr(); s.eat(';'); s.eat('}')
            return ('lambda', t, e)
        if x == 'static_cast':
            s.eat('<'); t = s.type(); s.eat('>'); s.eat('('); e = s.expr(); s.eat(')')
            return ('cast', t, e)
        if x == 'true': return ('lit', True)
        if x == 'false': return ('lit', False)
        if re.match(r'\d', x): return ('lit', float(x) if '.' in x else int(x))
        if x.startswith('«'): return ('op', x[1:-1])
        if re.match(r'[A-Za-z_]', x): return ('id', x)
        raise Bad('expression at ' + x)
def parse_functions(text):
    return P(text).functions()
def parse_expr(text):
    p = P(text); e = p.expr()
    if p.pk(): raise Bad('trailing text ' + p.pk())
    return e
def parse_stmts(text):
    p = P(text); out = []
    while p.pk(): out.append(p.stmt())
    return out
def strip(e):
    while e[0] == 'paren': e = e[1]
    return e

class Ret(Exception):
    def __init__(s, v): s.v = v
class Ev:
    """Evaluates an emitted expression: operands stay symbolic.  The result is
    (pre, tree, recorded): operands evaluated before the call body, the value as
    a tree over operands, and the ids passed to the coverage recorder."""
    def __init__(s, fns, some, enabled, types=None):
        s.fns = {f['name']: f for f in fns}
        s.some, s.enabled = some, enabled
        s.queried, s.recorded, s.calls, s.pre = [], [], [], []
        s.order = []
        s.stmts = []
    def lin(s, e, env):
        "Linear id expression -> ('id', param tree, offset)"
        e = strip(e)
        if e[0] == 'lit': return ('int', e[1])
        if e[0] == 'id' and e[1] in env: return env[e[1]]
        if e[0] == 'op': return ('idop', e[1], 0)
        if e[0] == 'bin' and e[1] == '+':
            a, b = s.lin(e[2], env), s.lin(e[3], env)
            if a[0] == 'idop' and b[0] == 'int': return ('idop', a[1], a[2] + b[1])
            if b[0] == 'idop' and a[0] == 'int': return ('idop', b[1], b[2] + a[1])
        raise Bad('mutant id expression %r' % (e,))
    def ev(s, e, env):
        k = e[0]
        if k == 'paren': return s.ev(e[1], env)
        if k == 'lit': return e
        if k == 'op':
            return ('op', e[1])
        if k == 'id':
            if e[1] == '__dredd_some_mutation_enabled': return ('lit', s.some)
            if e[1] in env: return env[e[1]]
            raise Bad('unknown name ' + e[1])
        if k == 'cast': return ('cast', e[1], s.ev(e[2], env))
        if k == 'lambda': return ('lambda', e[1], e[2], env)
        if k == 'un':
            x = s.ev(e[2], env)
            if e[1] == '!' and x[0] == 'lit' and isinstance(x[1], bool): return ('lit', not x[1])
            if e[1] == '*' and x[0] == 'ref' and x[1] == '*': return ('deref', x)
            if e[1] == '*' and x[0] == 'un' and x[1] == '&': return x[2]
            return ('un', e[1], x)
        if k == 'post': return ('post', e[1], s.ev(e[2], env))
        if k == 'bin':
            return ('bin', e[1], s.ev(e[2], env), s.ev(e[3], env))
        if k == 'cond':
            c = s.ev(e[1], env)
            if c[0] != 'lit': raise Bad('condition depends on operands')
            return s.ev(e[2] if c[1] else e[3], env)
        if k == 'call':
            f = strip(e[1])
            if f[0] == 'id' and f[1] == '__dredd_enabled_mutation':
                if len(e[2]) != 1: raise Bad('arguments of __dredd_enabled_mutation')
                i = s.lin(e[2][0], env)
                s.queried.append(i)
                return ('lit', i == s.enabled)
            if f[0] == 'id' and f[1] == '__dredd_record_covered_mutants':
                if len(e[2]) != 2: raise Bad('arguments of __dredd_record_covered_mutants')
                n = s.lin(e[2][1], env)
                if n[0] != 'int': raise Bad('mutant count')
                s.recorded.append((s.lin(e[2][0], env), n[1]))
                return ('lit', None)
            if f[0] == 'id' and f[1] in env:
                x = env[f[1]]
                if x[0] == 'lambda' and not e[2]: return ('lazy', s.ev(x[2], x[3]))
                raise Bad('call of ' + f[1])
            if f[0] == 'id' and f[1] in s.fns: return s.call(s.fns[f[1]], e[2], env)
            raise Bad('call of %r' % (f,))
        raise Bad('expression ' + k)
    def call(s, f, args, env):
        if len(args) != len(f['params']): raise Bad(f'{len(args)} arguments for {len(f["params"])} parameters')
        ne = {}
        binds = []
        for (t, n), a in zip(f['params'], args):
            st = strip(a)
            if t == ('int',) and st[0] == 'op' and st[1].startswith('#') or (t == ('int',) and n == f['params'][-1][1] and st[0] == 'lit'):
                ne[n] = s.lin(a, env); binds.append(('id', n)); continue
            if 'function' in t:
                if st[0] != 'lambda': raise Bad('std::function parameter receives no lambda')
                ne[n] = ('lambda', st[1], st[2], env); binds.append(('lazy', t, st)); continue
            if st[0] == 'lambda': raise Bad('lambda passed to a value parameter')
            x = s.ev(a, env)
            if '*' in t:
                if not (x[0] == 'un' and x[1] == '&'): raise Bad('pointer parameter receives no address')
                ne[n] = x
            else:
                if x[0] == 'un' and x[1] == '&': raise Bad('address passed to a value parameter')
                ne[n] = ('ref', '&', x) if '&' in t else x
            binds.append(('val', t, x)); s.pre.append(x)
        s.calls.append((f, binds))
        try:
            s.run(f['body'], ne)
        except Ret as r: return ('ret', f['t'], r.v)
        raise Bad('helper falls off its end')
    def run(s, st, env):
        k = st[0]
        if k == 'block':
            for x in st[1]: s.run(x, env)
        elif k == 'if':
            c = s.ev(st[1], env)
            if c[0] != 'lit': raise Bad('helper branches on an operand')
            if c[1]: s.run(st[2], env)
            elif st[3]: s.run(st[3], env)
        elif k == 'return': raise Ret(s.ev(st[1], env) if st[1] else None)
        elif k == 'expr':
            v = s.ev(st[1], env)
            if v != ('lit', None): raise ToolLimit('statement with a value in a helper')
        elif k == 'decl': env[st[2]] = s.ev(st[3], env)
        elif k == 'opstmt': s.stmts.append(st[1])
        elif k == 'nop': pass
        else: raise Bad('statement ' + k)
def plain(t):
    "Tree without wrappers."
    if not isinstance(t, tuple): return t
    if t[0] in ('ret', 'cast'): return plain(t[2])
    if t[0] == 'lazy': return plain(t[1])
    if t[0] == 'ref': return plain(t[2])
    if t[0] == 'deref': return plain(t[1])
    if t[0] in ('un', 'post'): return (t[0], t[1], plain(t[2]))
    if t[0] == 'bin': return ('bin', t[1], plain(t[2]), plain(t[3]))
    return t
def lazies(t, acc=None):
    "Operands evaluated lazily inside the tree."
    if acc is None: acc = []
    if isinstance(t, tuple):
        if t[0] == 'lazy':
            acc.append(plain(t[1])); return acc
        for x in t[1:]: lazies(x, acc)
    return acc
def truth(t, env, trace):
    "Boolean/integer evaluation for logical trees (values 0,1,2)."
    k = t[0]
    if k == 'op':
        trace.append(t[1]); return env[t[1]]
    if k == 'lit': return int(t[1])
    if k in ('ret', 'cast'): return truth(t[2], env, trace)
    if k in ('lazy', 'deref'): return truth(t[1], env, trace)
    if k == 'un' and t[1] == '!': return int(not truth(t[2], env, trace))
    if k == 'bin':
        a = truth(t[2], env, trace)
        if t[1] == '&&': return int(bool(truth(t[3], env, trace))) if a else 0
        if t[1] == '||': return 1 if a else int(bool(truth(t[3], env, trace)))
        b = truth(t[3], env, trace)
        if t[1] == '==': return int(a == b)
        if t[1] == '!=': return int(a != b)
    raise Bad('not a logical tree: %r' % (k,))
