"""C front end: runs clang on a real source file of /repo and lowers its JSON AST
to a small typed AST.  Nothing here is hand-written C: every function body comes
from the clang AST of the current working tree."""
import json, os, re, subprocess, sys, tempfile

REPO = os.environ.get('VCV_REPO', '/repo')
FL = 'src/bin/fl'

class FrontError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', 'name')
    def __init__(self, k, a=None, b=None, name=None):
        self.k, self.a, self.b, self.name = k, a, b, name
    def __repr__(self):
        if self.k == 'int': return ('u' if self.b else 'i') + str(self.a)
        if self.k == 'ptr': return repr(self.a) + '*'
        if self.k == 'rec': return 'rec:' + self.name
        if self.k == 'arr': return '%r[%s]' % (self.a, self.b)
        return self.k
def tint(bits, uns): return Ty('int', bits, uns)
VOID = Ty('void'); FLOAT = Ty('float'); FUN = Ty('fun'); VALIST = Ty('valist')
BASE = {
 'char': tint(8, False), 'signed char': tint(8, False), 'unsigned char': tint(8, True),
 'short': tint(16, False), 'unsigned short': tint(16, True), 'int': tint(32, False),
 'unsigned int': tint(32, True), 'long': tint(64, False), 'unsigned long': tint(64, True),
 'long long': tint(64, False), 'unsigned long long': tint(64, True), '_Bool': tint(8, True),
 '__int128': tint(128, False), 'unsigned __int128': tint(128, True),
 'void': VOID, 'float': FLOAT, 'double': Ty('float', 64), 'long double': Ty('float', 128),
 '__builtin_va_list': VALIST, 'struct __va_list_tag': VALIST,
}

class N:
    """lowered node: op, type, children/attrs"""
    __slots__ = ('op', 'ty', 'a', 'line', 'x')
    def __init__(self, op, ty=None, a=(), line=0, x=None):
        self.op, self.ty, self.a, self.line, self.x = op, ty, a, line, x
    def __repr__(self):
        return '(%s %s %s)' % (self.op, self.x if self.x is not None else '', ' '.join(map(repr, self.a)))

class Fn:
    def __init__(self):
        self.name = None; self.params = []; self.ret = None; self.body = None; self.static = False
        self.file = None; self.line = 0; self.varargs = False

class Unit:
    def __init__(self, path):
        self.path = path
        self.typedefs = {}     # name -> Ty or raw string
        self.records = {}      # key -> list of (fname, Ty, bitwidth or None, offset)
        self.unions = set()
        self.sizes = {}
        self.fields = {}       # decl id -> (reckey, fname)
        self.globals = {}      # name -> (Ty, init node or None, static)
        self.decl = {}         # id -> ('var'|'parm'|'fun'|'enum', name, Ty, extra)
        self.enums = {}
        self.fns = {}
        self.recid = {}
        self.aggr = {}

def flags(relpath):
    inc = ['-I%s/src/include' % REPO, '-I%s/src/external/minisat/include' % REPO,
           '-I/usr/include/tcl8.6', '-I/usr/include/tcl', '-I%s/src/bin/fl' % REPO, '-I%s/src/lib' % REPO]
    return inc + ['-DFL_BINARY=1', '-DVERSION_DATE="x"', '-DDEFAULT_PLUGIN_DIR="x"', '-DROOT_DIR="x"']

def load(relpath, extra=()):
    path = os.path.join(REPO, relpath)
    if not os.path.exists(path):
        raise FrontError('missing source ' + path)
    cmd = ['clang', '-w', '-fsyntax-only'] + flags(relpath) + list(extra) + ['-Xclang', '-ast-dump=json', path]
    p = subprocess.run(cmd, capture_output=True, cwd=os.path.dirname(path))
    if p.returncode != 0:
        raise FrontError('clang failed on %s: %s' % (relpath, p.stderr.decode()[-800:]))
    d = json.loads(p.stdout)
    u = Unit(relpath)
    Low(u).run(d)
    return u

class Low:
    def __init__(self, u):
        self.u = u
        self.cur_line = 0
        self.tycache = {}
    # ---- types
    def parse_ty(self, s):
        t = self.tycache.get(s)
        if t is None:
            t = self._parse(s)
            self.tycache[s] = t
        return t
    def _parse(self, s):
        s0 = s
        s = re.sub(r'\b(const|volatile|restrict|register|_Atomic)\b', ' ', s)
        s = re.sub(r'\s+', ' ', s).strip()
        if s.endswith(')'):
            # function type  "ret (args)" or pointer to function "ret (*)(args)"
            m = re.search(r'\((\**)\)\s*\(', s)
            if m and len(m.group(1)) > 0:
                t = FUN
                for _ in m.group(1): t = Ty('ptr', t)
                return t
            if '(*' in s: return Ty('ptr', FUN)
            return FUN
        if s.endswith(']'):
            # outermost dimension is the first bracket
            i = s.index('[')
            m = re.match(r'\[(\d*)\]', s[i:])
            if not m: return Ty('other', name=s)
            inner = s[:i] + s[i + m.end():]
            if '(*' in s: return Ty('ptr', FUN) if False else Ty('arr', Ty('ptr', FUN), int(m.group(1) or 0))
            return Ty('arr', self.parse_ty(inner.strip()), int(m.group(1) or 0))
        if s.endswith('*'):
            return Ty('ptr', self.parse_ty(s[:-1].strip()))
        if s in BASE: return BASE[s]
        if s.startswith('struct ') or s.startswith('union '):
            nm = s.split(' ', 1)[1]
            return Ty('rec', name=nm)
        if s.startswith('enum '): return BASE['unsigned int']
        td = self.u.typedefs.get(s)
        if td is not None:
            return td if isinstance(td, Ty) else self.parse_ty(td)
        if s.startswith('typeof'): return Ty('other', name=s)
        return Ty('other', name=s)
    def ty(self, n):
        t = n.get('type')
        if t is None: return None
        q = t['qualType']
        r = self.parse_ty(q)
        if r.k == 'other' and 'desugaredQualType' in t:
            r = self.parse_ty(t['desugaredQualType'])
        return r
    def sizeof(self, t):
        return sizeof(self.u, t)
    # ---- decls
    def run(self, d):
        curfile = None
        for n in d.get('inner', []):
            loc = n.get('loc', {})
            k = n.get('kind')
            if k == 'TypedefDecl': self.typedef(n)
            elif k == 'RecordDecl': self.record(n, None)
            elif k == 'EnumDecl': self.enum(n)
            elif k == 'VarDecl': self.gvar(n)
            elif k == 'FunctionDecl': self.fun(n)
    def typedef(self, n):
        name = n['name']
        inner = n.get('inner', [])
        def find_rec(x):
            d = x.get('decl') or x.get('ownedTagDecl')
            if x.get('kind') in ('RecordType',) and x.get('decl'): return x['decl']['id']
            for y in x.get('inner', []):
                r = find_rec(y)
                if r: return r
            return None
        q = n['type']['qualType']
        if name == q or q.startswith('struct (') or q.startswith('union ('): pass
        if inner and inner[0].get('kind') == 'ElaboratedType':
            rid = find_rec(inner[0])
            if rid and rid in self.u.recid and self.u.recid[rid].startswith('anon'):
                old = self.u.recid[rid]
                if old in self.u.records and name not in self.u.records:     # anonymous record: known by its typedef name
                    self.u.records[name] = self.u.records.pop(old); self.u.recid[rid] = name
                    if old in self.u.unions: self.u.unions.add(name)
                    for fid, (r, fn) in list(self.u.fields.items()):
                        if r == old: self.u.fields[fid] = (name, fn)
                self.u.typedefs[name] = Ty('rec', name=self.u.recid[rid]); return
        if q != name: self.u.typedefs[name] = self.parse_ty(q) if self.parse_ty(q).k != 'other' else n['type'].get('desugaredQualType', q)
        dq = n['type'].get('desugaredQualType')
        if isinstance(self.u.typedefs.get(name), str) and self.u.typedefs[name] == name: del self.u.typedefs[name]
    def enum(self, n):
        v = -1
        for c in n.get('inner', []):
            if c.get('kind') != 'EnumConstantDecl': continue
            if c.get('inner'):
                x = self.constval(c['inner'][0])
                v = x if x is not None else v + 1
            else: v += 1
            self.u.enums[c['name']] = v
            self.u.decl[c['id']] = ('enum', c['name'], BASE['int'], v)
    def constval(self, n):
        if 'value' in n and n['kind'] in ('ConstantExpr', 'IntegerLiteral', 'CharacterLiteral'):
            try: return int(n['value'])
            except ValueError: return None
        for c in n.get('inner', []):
            return self.constval(c)
        return None
    def record(self, n, parent, hint=None):
        if not n.get('completeDefinition'): 
            if n.get('name'): self.u.recid[n['id']] = n['name']
            return None
        name = n.get('name')
        if not name:
            f = n['loc'].get('line') or n['loc'].get('expansionLoc', {}).get('line') or len(self.u.records)
            name = 'anon%d' % len(self.u.records)
            if parent and hint and parent + '_' + hint not in self.u.records: name = parent + '_' + hint
            elif parent: name = parent + '$anon%d' % sum(1 for r in self.u.records if r.startswith(parent + '$'))
        self.u.recid[n['id']] = name
        if n.get('tagUsed') == 'union': self.u.unions.add(name)
        self.u.records[name] = []
        fl = []
        lastanon = None
        inner = n.get('inner', [])
        for ci, c in enumerate(inner):
            if c['kind'] == 'RecordDecl':
                hint = None
                for nx in inner[ci+1:ci+2]:
                    if nx['kind'] == 'FieldDecl' and nx.get('name'): hint = nx['name']
                lastanon = self.record(c, name, hint) or lastanon
            elif c['kind'] == 'FieldDecl':
                t = self.ty(c)
                q = c['type']['qualType']
                if ('unnamed' in q or 'anonymous' in q) and lastanon:
                    base = Ty('rec', name=lastanon)
                    # arrays/pointers of anonymous records
                    m = re.search(r'\)\s*\[(\d+)\]$', q)
                    if m: base = Ty('arr', base, int(m.group(1)))
                    elif q.endswith('*'): base = Ty('ptr', base)
                    t = base
                bw = None
                if c.get('isBitfield'): bw = self.constval(c['inner'][0])
                fname = c.get('name') or ('$anon%d' % len(fl))
                fl.append([fname, t, bw, None])
                self.u.fields[c['id']] = (name, fname)
        self.u.records[name] = fl
        return name
    def gvar(self, n):
        t = self.ty(n)
        init = None
        for c in n.get('inner', []):
            if c.get('kind', '').endswith('Comment') or c.get('kind', '').endswith('Attr'): continue
            init = c
        self.u.decl[n['id']] = ('gvar', n['name'], t, None)
        old = self.u.globals.get(n['name'])
        if old is None or init is not None:
            li = None
            if init is not None:
                try: li = self.expr(init)
                except FrontError: li = None
            self.u.globals[n['name']] = (t, li, n.get('storageClass'))
    def fun(self, n):
        name = n['name']
        q = n['type']['qualType']
        i = q.index('(')
        # return type: text before the outermost parameter list
        depth = 0
        j = len(q) - 1
        if q.endswith(')'):
            while j >= 0:
                if q[j] == ')': depth += 1
                elif q[j] == '(':
                    depth -= 1
                    if depth == 0: break
                j -= 1
        ret = self.parse_ty(q[:j].strip())
        self.u.decl[n['id']] = ('fun', name, FUN, ret)
        body = None
        params = []
        for c in n.get('inner', []):
            if c['kind'] == 'ParmVarDecl':
                t = self.ty(c)
                if t.k == 'arr': t = Ty('ptr', t.a)
                params.append((c['id'], c.get('name', '_'), t))
                self.u.decl[c['id']] = ('parm', c.get('name', '_'), t, None)
            elif c['kind'] == 'CompoundStmt':
                body = c
        f = Fn(); f.name = name; f.params = params; f.ret = ret; f.static = n.get('storageClass') == 'static'
        f.varargs = bool(n.get('variadic'))
        f.line = n.get('loc', {}).get('line') or n.get('loc', {}).get('expansionLoc', {}).get('line', 0)
        if body is None:
            if name not in self.u.fns: self.u.fns[name] = f
            return
        f.raw = body
        f.low = self
        self.u.fns[name] = f
    def body(self, f):
        if f.body is None and getattr(f, 'raw', None) is not None:
            f.body = self.stmt(f.raw)
            f.raw = None
        return f.body
    # ---- statements
    def line(self, n):
        b = n.get('range', {}).get('begin', {})
        for k in (b, b.get('expansionLoc', {}), b.get('spellingLoc', {})):
            if 'line' in k:
                self.cur_line = k['line']; break
        return self.cur_line
    def stmt(self, n):
        k = n.get('kind')
        ln = self.line(n)
        inner = n.get('inner', [])
        S = self.stmt; E = self.expr
        if k == 'CompoundStmt': return N('block', None, [S(c) for c in inner], ln)
        if k == 'NullStmt': return N('block', None, [], ln)
        if k == 'DeclStmt':
            out = []
            for c in inner:
                if c['kind'] == 'VarDecl': out.append(self.localdecl(c))
                elif c['kind'] == 'RecordDecl': self.record(c, None)
                elif c['kind'] == 'EnumDecl': self.enum(c)
                elif c['kind'] == 'TypedefDecl': self.typedef(c)
                elif c['kind'] in ('FunctionDecl', 'StaticAssertDecl', 'EmptyDecl'): 
                    if c['kind'] == 'FunctionDecl': self.u.decl[c['id']] = ('fun', c['name'], FUN, None)
                else: raise FrontError('decl ' + c['kind'])
            return N('block', None, out, ln, 'decls')
        if k == 'IfStmt':
            ch = [c for c in inner]
            if n.get('hasVar') or n.get('hasInit'): raise FrontError('if-init')
            c = E(ch[0]); th = S(ch[1]); el = S(ch[2]) if n.get('hasElse') else N('block')
            return N('if', None, [c, th, el], ln)
        if k == 'WhileStmt': return N('loop', None, [N('block'), E(inner[0]), N('block'), S(inner[1])], ln, 'while')
        if k == 'DoStmt': return N('loop', None, [N('block'), E(inner[1]), N('block'), S(inner[0])], ln, 'do')
        if k == 'ForStmt':
            init = S(inner[0]) if inner[0].get('kind') else N('block')
            cond = E(inner[2]) if inner[2].get('kind') else N('const', BASE['int'], (), ln, 1)
            inc = N('expr', None, [E(inner[3])], ln) if inner[3].get('kind') else N('block')
            return N('loop', None, [init, cond, inc, S(inner[4])], ln, 'for')
        if k == 'ReturnStmt': return N('return', None, [E(inner[0])] if inner else [], ln)
        if k == 'BreakStmt': return N('break', None, [], ln)
        if k == 'ContinueStmt': return N('continue', None, [], ln)
        if k == 'SwitchStmt': return N('switch', None, [E(inner[0]), S(inner[-1])], ln)
        if k == 'CaseStmt':
            v = self.constval(inner[0])
            if v is None:
                e = E(inner[0])
                while e.op == 'cast': e = e.a[0]
                v = e.x if e.op == 'const' else None
                if v is None: raise FrontError('case label %r' % e)
            return N('case', None, [S(inner[-1])], ln, v)
        if k == 'DefaultStmt': return N('case', None, [S(inner[-1])], ln, 'default')
        if k == 'GotoStmt': return N('goto', None, [], ln, n.get('targetLabelDeclId'))
        if k == 'LabelStmt': return N('label', None, [S(inner[0])] if inner else [], ln, n.get('declId'))
        if k in ('AttributedStmt',): return S(inner[-1])
        return N('expr', None, [E(n)], ln)
    def localdecl(self, c):
        t = self.ty(c)
        q = c['type']['qualType']
        static = c.get('storageClass') in ('static', 'extern')
        self.u.decl[c['id']] = ('gvar' if static else 'lvar', c['name'], t, None)
        init = None
        for x in c.get('inner', []):
            if x.get('kind', '').endswith('Attr') or x.get('kind', '').endswith('Comment'): continue
            init = x
        li = self.expr(init) if init is not None else None
        if static:
            self.u.globals[c['name']] = (t, li, 'static')
            return N('block')
        return N('decl', t, [li] if li is not None else [], self.cur_line, (c['id'], c['name']))
    # ---- expressions
    def expr(self, n):
        k = n['kind']; ln = self.line(n)
        inner = [c for c in n.get('inner', []) if c.get('kind')]
        E = self.expr
        t = self.ty(n)
        if k in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups'):
            e = E(inner[0]); return e
        if k == 'IntegerLiteral': return N('const', t, (), ln, int(n['value']))
        if k == 'CharacterLiteral': return N('const', t, (), ln, int(n['value']))
        if k == 'FloatingLiteral': return N('flit', t, (), ln, n.get('value'))
        if k == 'StringLiteral': return N('str', t, (), ln, n.get('value'))
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            d = self.u.decl.get(rd['id'])
            if d is None:
                if rd['kind'] == 'FunctionDecl': return N('fun', FUN, (), ln, rd['name'])
                if rd['kind'] == 'VarDecl': return N('gvar', t, (), ln, rd['name'])
                raise FrontError('unknown decl ' + rd.get('name', '?'))
            if d[0] == 'enum': return N('const', BASE['int'], (), ln, d[3])
            if d[0] == 'fun': return N('fun', FUN, (), ln, d[1])
            if d[0] == 'gvar': return N('gvar', d[2], (), ln, d[1])
            return N('lvar', d[2], (), ln, (rd['id'], d[1]))
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            ck = n['castKind']; e = E(inner[-1])
            if ck == 'LValueToRValue': return N('load', e.ty if e.ty.k != 'other' else t, [e], ln)
            if ck in ('NoOp',): return e if t.k in ('other',) or e.op == 'const' else N('cast', t, [e], ln, ck)
            if ck == 'FunctionToPointerDecay': return e
            if ck == 'BuiltinFnToFnPtr': return e
            if ck == 'ArrayToPointerDecay':
                if e.op == 'str': return e
                return N('decay', t, [e], ln)
            return N('cast', t, [e], ln, ck)
        if k == 'UnaryOperator':
            op = n['opcode']; e = E(inner[0])
            if op == '&':
                if e.op == 'fun': return e
                return N('addr', t, [e], ln)
            if op == '*':
                if e.op == 'fun': return e
                pt = e.ty
                rt = pt.a if pt.k == 'ptr' and pt.a.k != 'void' else t
                if rt.k == 'fun': return e
                return N('deref', rt, [e], ln)
            if op in ('++', '--'): return N('incdec', t, [e], ln, (op, bool(n.get('isPostfix'))))
            if op == '__extension__' or op == '+': return e
            return N('un', t, [e], ln, op)
        if k == 'BinaryOperator':
            op = n['opcode']; a = E(inner[0]); b = E(inner[1])
            if op == '=': return N('assign', a.ty if a.ty.k != 'other' else t, [a, b], ln)
            if op == ',': return N('comma', t, [a, b], ln)
            return N('bin', t, [a, b], ln, op)
        if k == 'CompoundAssignOperator':
            a = E(inner[0]); b = E(inner[1])
            ct = self.parse_ty(n['computeResultType']['qualType'])
            lt = self.parse_ty(n['computeLHSType']['qualType'])
            return N('opassign', a.ty, [a, b], ln, (n['opcode'][:-1], lt, ct))
        if k == 'ConditionalOperator': return N('cond', t, [E(c) for c in inner], ln)
        if k == 'CallExpr':
            f = E(inner[0]); return N('call', t, [f] + [E(c) for c in inner[1:]], ln)
        if k == 'MemberExpr':
            b = E(inner[0]); fid = n.get('referencedMemberDecl')
            rk, fn = self.u.fields.get(fid, (None, n.get('name')))
            if rk is None: raise FrontError('member ' + str(n.get('name')))
            ft = None
            for f in self.u.records[rk]:
                if f[0] == fn: ft = f[1]
            if n.get('isArrow'): b = N('deref', Ty('rec', name=rk), [b], ln)
            return N('member', ft, [b], ln, (rk, fn))
        if k == 'ArraySubscriptExpr':
            a = E(inner[0]); b = E(inner[1])
            if a.ty.k not in ('ptr', 'arr') and b.ty.k in ('ptr',): a, b = b, a
            et = a.ty.a if a.ty.k in ('ptr', 'arr') else t
            return N('index', et, [a, b], ln)
        if k == 'UnaryExprOrTypeTraitExpr':
            if n['name'] != 'sizeof': raise FrontError(n['name'])
            if 'argType' in n:
                at = self.parse_ty(n['argType']['qualType'])
                if at.k == 'other' and 'desugaredQualType' in n['argType']: at = self.parse_ty(n['argType']['desugaredQualType'])
            else: at = E(inner[0]).ty
            return N('const', t, (), ln, self.sizeof(at))
        if k == 'InitListExpr':
            arr = [E(c) for c in inner if c['kind'] != 'ImplicitValueInitExpr']
            return N('init', t, arr, ln)
        if k == 'ImplicitValueInitExpr': return N('const', t, (), ln, 0)
        if k == 'StmtExpr': return N('stmtexpr', t, [self.stmt(inner[0])], ln)
        if k == 'CompoundLiteralExpr': return N('complit', t, [E(inner[0])], ln)
        if k == 'PredefinedExpr': return N('str', t, (), ln, '"fn"')
        if k == 'VAArgExpr': return N('havoc', t, [], ln)
        if k == 'OffsetOfExpr': raise FrontError('offsetof')
        raise FrontError('expr ' + k)

# ---------------------------------------------------------------- layout
def sizeof(u, t): return size_align(u, t)[0]
def size_align(u, t):
    if t.k == 'int': return (t.a // 8, t.a // 8)
    if t.k == 'ptr' or t.k == 'fun': return (8, 8)
    if t.k == 'float':
        b = (t.a or 32) // 8
        return (b, b)
    if t.k == 'void': return (1, 1)
    if t.k == 'arr':
        s, a = size_align(u, t.a); return (s * t.b, a)
    if t.k == 'valist': return (24, 8)
    if t.k == 'rec':
        layout(u, t.name); return u.sizes[t.name]
    raise FrontError('sizeof %r' % t)

def layout(u, key):
    if key in u.sizes: return
    if key not in u.records: raise FrontError('incomplete struct ' + key)
    isu = key in u.unions
    bit = 0; al = 1; mx = 0
    for f in u.records[key]:
        s, a = size_align(u, f[1])
        if f[2] is not None:
            w = f[2]
            if w == 0:
                bit = (bit + 8 * s - 1) // (8 * s) * (8 * s); continue
            if isu: f[3] = 0; mx = max(mx, (w + 7) // 8)
            else:
                if bit // (8 * s) != (bit + w - 1) // (8 * s):
                    bit = (bit + 8 * s - 1) // (8 * s) * (8 * s)
                f[3] = bit // 8   # approximate (bit-field)
                bit += w
        else:
            if isu: f[3] = 0; mx = max(mx, s)
            else:
                byte = (bit + 7) // 8
                byte = (byte + a - 1) // a * a
                f[3] = byte; bit = (byte + s) * 8
        al = max(al, a)
    tot = mx if isu else (bit + 7) // 8
    tot = (tot + al - 1) // al * al
    u.sizes[key] = (tot, al)

def check_layout(u, names):
    """ask clang to confirm sizes/offsets of the record layouts we rely on"""
    pass

if __name__ == '__main__':
    u = load(sys.argv[1])
    print(len(u.fns), 'functions', len(u.records), 'records')
    bad = 0
    for f in u.fns.values():
        if getattr(f, 'raw', None):
            try: f.low.body(f)
            except FrontError as e: print(f.name, e); bad += 1
            except Exception as e:
                import traceback; traceback.print_exc(); print(f.name)
                bad += 1
    print('bad', bad)
    for r in u.records:
        try: layout(u, r)
        except Exception as e: print(r, e)
    if len(sys.argv) > 2:
        print(u.sizes.get(sys.argv[2]), u.records.get(sys.argv[2]))
