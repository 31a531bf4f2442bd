#!/usr/bin/env python3
"""Mechanical translation of C++ functions (clang JSON AST of /repo's current
source) into Verus exec functions, with contracts attached from a spec file.

What the translation drops is listed in DESIGN.md (section "Extraction").
Anything it does not understand raises Unsupported: the function is then outside
the verifier's reach (never silently skipped)."""
import json, os, re, subprocess, sys

class Unsupported(Exception): pass      # construct outside the translated subset
class AttachError(Exception): pass      # a contract does not fit the code's shape

RUST_KW = {'as','break','const','continue','crate','else','enum','extern','false','fn','for','if','impl','in','let','loop','match','mod','move','mut','pub','ref','return','self','Self','static','struct','super','trait','true','type','unsafe','use','where','while','async','await','dyn','abstract','become','box','do','final','macro','override','priv','typeof','unsized','virtual','yield','try','old','assert','assume','proof','spec','exec','ghost','tracked','choose','forall','exists','int','nat','real','bool','char','str','h','this','verus','decreases','requires','ensures','invariant'}

def rid(n):
    n = re.sub(r'\W', '_', n)
    return n + '_' if n in RUST_KW else n

PRIMS = {'int':'i32','unsigned int':'u32','long':'i64','unsigned long':'u64','long long':'i64','unsigned long long':'u64','char':'i8','signed char':'i8','unsigned char':'u8','bool':'bool','short':'i16','unsigned short':'u16','double':'Dbl','float':'Dbl','void':'()','std::size_t':'u64','size_t':'u64','int64_t':'i64','uint64_t':'u64','std::nullptr_t':'Ptr','std::_Bit_reference':'bool'}
INTS = {'i8','u8','i16','u16','i32','u32','i64','u64'}
SIGNED = {'i8','i16','i32','i64'}

# ------------------------------------------------------------------ AST loading
REPO = '/repo'
class Docs(list): cpp = None
def dump_ast(cpp, filters=('cuhksz',), extra=()):
    docs = Docs(); docs.cpp = cpp
    for f in filters:
        cmd = ['clang++','-std=c++11','-include','stdint.h','-I%s/src/include' % REPO,'-fsyntax-only','-w',*extra,
               '-Xclang','-ast-dump=json','-Xclang','-ast-dump-filter=%s' % f, cpp]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise Unsupported('clang cannot parse the driver: ' + p.stderr[:2000])
        dec = json.JSONDecoder(); s = p.stdout; i = 0; n = len(s)
        while True:
            while i < n and s[i] in ' \r\n\t': i += 1
            if i >= n: break
            if s.startswith('Dumping', i):
                i = s.index('\n', i) + 1; continue
            d, i = dec.raw_decode(s, i)
            docs.append(d)
    return docs

def kids(n): return [c for c in n.get('inner', []) if c and 'kind' in c and not (c['kind'] == 'NonTypeTemplateParmDecl' and n['kind'] == 'SubstNonTypeTemplateParmExpr')]

class TU:
    def __init__(self, docs):
        self.funcs = []          # (qualname, node, class node or None)
        self.by_id = {}
        self.classes = {}        # qualname -> node
        self.enums = {}          # id of an enumerator -> its value
        self.vars = {}           # id -> node (globals / static members)
        self.parent_class = {}   # id of function -> class qualname
        self.cpp = getattr(docs, 'cpp', None); self.tried = set()
        for d in docs:
            self.walk(d, [], None)
    def load_extra(self, name):
        # a function of the repository outside namespace cuhksz (e.g. in a global anonymous namespace): a second dump, whose
        # node ids are unrelated to those of the first
        if name in self.tried or not self.cpp or not re.match(r'^\w+$', name): return
        self.tried.add(name)
        pat = re.compile(r'^[\w:<>&* ,]*\b%s\s*\([^;{}]*\)\s*(?:const|noexcept|\s)*\{' % re.escape(name), re.M)
        srcs = [os.path.join(r, f) for r, _, fs in os.walk(REPO + '/src') for f in fs if f.endswith(('.h','.cpp'))]
        if not any(pat.search(open(f, errors='replace').read()) for f in srcs): return
        last = ''
        for d in dump_ast(self.cpp, [name]):
            l = d.get('loc', {}); l = l.get('expansionLoc', l); last = l.get('file', last)
            if d['kind'] == 'FunctionDecl' and d.get('name') == name and last.startswith(REPO + '/'): self.walk(d, [], None)
    def walk(self, n, path, cls):
        if not n or 'kind' not in n: return
        k = n['kind']; i = n.get('id')
        if i: 
            if i in self.by_id and not self._better(n, self.by_id[i]): pass
            else: self.by_id[i] = n
        if k in ('NamespaceDecl',):
            p = path + ([n['name']] if n.get('name') else [])      # unnamed namespaces are transparent
            for c in kids(n): self.walk(c, p, None)
        elif k in ('CXXRecordDecl','ClassTemplateSpecializationDecl'):
            if not n.get('name'):
                p = path + ['(anonrec)']
            else:
                p = path + [n['name'] + self.targs(n)]
            if n.get('completeDefinition') or kids(n):
                q = '::'.join(p)
                if n.get('completeDefinition') and (q not in self.classes or True):
                    self.classes[q] = n
                    n['_q'] = q
                for c in kids(n): self.walk(c, p, q)
        elif k == 'ClassTemplateDecl':
            for c in kids(n):
                if c['kind'] == 'CXXRecordDecl': continue      # the uninstantiated pattern
                self.walk(c, path, cls)
        elif k == 'FunctionTemplateDecl':
            first = True
            for c in kids(n):
                if c['kind'] in ('FunctionDecl','CXXMethodDecl','CXXConstructorDecl'):
                    if first: first = False; continue           # the pattern itself
                    self.walk(c, path, cls)
        elif k in ('FunctionDecl','CXXMethodDecl','CXXConstructorDecl','CXXDestructorDecl','CXXConversionDecl'):
            # out-of-line definition: recover its class from the previous declaration
            if cls is None and n.get('previousDecl') in self.parent_class:
                cls = self.parent_class[n['previousDecl']]
                q = cls + '::' + n.get('name','')
            else:
                q = '::'.join(path + [n.get('name','')])
            if cls: self.parent_class[i] = cls
            self.funcs.append((q, n, cls))
        elif k == 'FriendDecl':
            for c in kids(n): self.walk(c, path[:-1] if cls else path, None)
        elif k == 'VarDecl':
            if not (i in self.vars and kids(self.vars[i]) and not kids(n)): self.vars[i] = n
            n['_q'] = '::'.join(path + [n.get('name','')])
            if n.get('previousDecl'): self.vars[n['previousDecl']] = n if kids(n) else self.vars.get(n['previousDecl'], n)
        elif k == 'EnumDecl':
            v = -1
            for c in kids(n):
                if c['kind'] != 'EnumConstantDecl': continue
                e = [x for x in kids(c) if x['kind'] == 'ConstantExpr']
                v = int(e[0]['value']) if e else v + 1
                self.enums[c['id']] = v
        elif k in ('LinkageSpecDecl','ExportDecl'):
            for c in kids(n): self.walk(c, path, cls)
    @staticmethod
    def _better(a, b): return len(a.get('inner',[])) >= len(b.get('inner',[]))
    @staticmethod
    def targs(n):
        if n['kind'] != 'ClassTemplateSpecializationDecl': return ''
        a = []
        for c in kids(n):
            if c['kind'] == 'TemplateArgument':
                if 'type' in c: a.append(c['type']['qualType'])
                elif 'value' in c: a.append(str(c['value']))
        return '<' + ', '.join(a) + '>'

def has_body(n): return any(c['kind'] in ('CompoundStmt','CXXTryStmt') for c in kids(n))
def body_of(n): return [c for c in kids(n) if c['kind'] == 'CompoundStmt'][-1]
def params_of(n):
    # an unnamed trailing std::enable_if<...>::type * parameter carries no value
    return [c for c in kids(n) if c['kind'] == 'ParmVarDecl' and not (not c.get('name') and 'enable_if<' in c['type'].get('qualType', ''))]

# ------------------------------------------------------------------ types
def split_targs(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '<': depth += 1
        if ch == '>': depth -= 1
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')

def strip_cv(t):
    t = t.strip()
    while True:
        u = re.sub(r'^(const|volatile|struct|class|union|typename)\s+', '', t)
        u = re.sub(r'\s*\bconst$', '', u).strip()
        if u == t: return t
        t = u

class Types:
    def __init__(self, spec):
        self.map = dict(spec.types)     # C++ type -> rust type
        self.heap = spec.heap           # heap class names -> rust prefix
    def heapref(self, t):
        """a reference to an object of a heap class: its address"""
        t = strip_cv(t); b = strip_cv(t[:-1]) if t.endswith('&') else ''
        return bool(b) and b not in self.map and (b in self.heap or b.split('::')[-1] in self.heap)
    def rust(self, t):
        t = strip_cv(t)
        if t in self.map: return self.map[t]
        if t.endswith('&&'): return self.rust(t[:-2])
        if t.endswith('&') and self.heapref(t): return 'Ptr'
        if t.endswith('&'): return self.rust(t[:-1])
        if t in PRIMS: return PRIMS[t]
        m = re.match(r'^((?:std::)?(?:__cxx11::)?(?:vector|list|deque)<.*>)::value_type$', t)
        if m: return re.match(r'^\w+<(.*)>$', self.rust(m.group(1))).group(1)
        if re.match(r'^(std::)?(__cxx11::)?(basic_)?string(<char.*>)?$', t): return 'Str'
        m = re.match(r'^(?:std::)?(?:__cxx11::)?(vector|list|deque|unique_ptr|stack|queue|array|initializer_list|set|multiset|map|multimap|pair)<(.*)>$', t)
        if m:
            a = split_targs(m.group(2))
            if m.group(1) == 'unique_ptr':
                e = a[0]
                if e.endswith('[]'): return 'CArr<%s>' % self.rust(e[:-2])
                raise Unsupported('type ' + t)
            if m.group(1) == 'vector': return 'CVec<%s>' % self.rust(a[0])
            if m.group(1) == 'list': return 'CList<%s>' % self.rust(a[0])
            if m.group(1) == 'deque': return 'CDeque<%s>' % self.rust(a[0])
            if m.group(1) == 'queue': return 'CQueue<%s>' % self.rust(a[0])
            if m.group(1) == 'stack': return 'CStack<%s>' % self.rust(a[0])
            if m.group(1) == 'set' and self.rust(a[0]) == 'i32' and len(a) <= 3: return 'CSet'
            if m.group(1) == 'multiset' and self.rust(a[0]) == 'i32' and len(a) <= 3: return 'CMultiSet'
            if m.group(1) == 'map' and self.rust(a[0]) == self.rust(a[1]) == 'i32': return 'CMap'
            if m.group(1) == 'multimap' and self.rust(a[0]) == self.rust(a[1]) == 'i32': return 'CMultiMap'
            if m.group(1) == 'initializer_list': return 'CVec<%s>' % self.rust(a[0])
            if m.group(1) == 'pair': return '(%s, %s)' % (self.rust(a[0]), self.rust(a[1]))
            raise Unsupported('type ' + t)
        if re.match(r'^(?:std::|__gnu_cxx::)?(?:__cxx11::)?(?:__normal_iterator|_List_iterator|_List_const_iterator|_Rb_tree_iterator|_Rb_tree_const_iterator|_Deque_iterator)<', t): return 'It'
        m = re.match(r'^(.*?)\s*\[(\d*)\]$', t)
        if m: return 'CArr<%s>' % self.rust(m.group(1))
        m = re.match(r'^(.*?)\s*\(\*\)\((.*)\)$', t)      # pointer to function
        if m: return 'CFn<%s, %s>' % (self.rust(m.group(2)), self.rust(m.group(1)))
        m = re.match(r'^(.*?)\s*\*$', t)
        if m:
            b = strip_cv(m.group(1)); b2 = b.split('::')[-1]
            if b in self.heap or b2 in self.heap: return 'Ptr'
            if (b + '[]') in self.map: return self.map[b + '[]']
            if strip_cv(b) in PRIMS or True:
                # pointer used as an array of elements (T* from new T[n], const T* parameter)
                return 'CArr<%s>' % self.rust(b)
        b = t.split('::')[-1]
        if b in self.map: return self.map[b]
        m = re.match(r'^(?:std::)?(?:__cxx11::)?basic_ostringstream<.*>$|^std::ostringstream$|^std::ostream$|^(?:std::)?(?:__cxx11::)?basic_ostream<.*>$|^std::basic_ostream<char>::__ostream_type$', t)
        if m: return 'Oss'
        if re.match(r'^(?:std::)?(?:__cxx11::)?(basic_stringstream<.*>|stringstream|basic_istream<.*>)$', t): return 'Iss'
        if t.startswith('std::mersenne_twister_engine<unsigned long, 64, 312, 156, 31, 13043109905998158313,'): return 'Mt'
        m = re.match(r'^std::bitset<(\d+)>$', t)
        if m: return 'Bitset%s' % m.group(1)
        raise Unsupported('type ' + t)

# ------------------------------------------------------------------ spec files
class LoopSpec:
    def __init__(self): self.sec = {}
class Hook(str): pass
class FnSpec:
    def __init__(self, name): 
        self.qual = name; self.rust = None; self.sec = {}; self.loops = {}; self.ifs = {}; self.params = None
        self.sig = None; self.locals = []; self.opts = {}; self.calls = {}; self.attrs = []; self.prop = None; self.after_decl = {}
class Spec:
    def __init__(self, path):
        self.path = path; self.driver = ''; self.prelude = ''; self.fns = []; self.types = {}; self.heap = {}; self.filters = ['cuhksz']; self.runtimes = []
        self.structs = []; self.consts = {}; self.lemmas = ''; self.vararr = {}; self.includes = []; self.trusted = []; self.externs = {}; self.optypes = set(); self.nttp = {}; self.unions = {}; self.rvref = set(); self.heapalloc = set()
        inc = lambda m: open(os.path.join(os.path.dirname(path), 'lib', m.group(1) + '.inc')).read()
        self.parse(self.expand(re.sub(r'^@include (\w+)\n', inc, open(path).read(), flags=re.M)))
    @staticmethod
    def expand(text):
        # @repeat A=x B=y ; A=z B=w ... @endrepeat: the block once per substitution of $A, $B
        def rep(m):
            out = ''
            for alt in m.group(1).split(';'):
                b = m.group(2)
                for kv in alt.split():
                    k, v = kv.split('=', 1); b = b.replace('$' + k, v.replace('~', ' '))
                out += b
            return out
        return re.sub(r'^@repeat (.*)\n((?:.*\n)*?)@endrepeat\n', rep, text, flags=re.M)
    def parse(self, text):
        cur = None; loop = None; mode = None; buf = None
        def sink(container, key):
            def add(line): container[key] = container.get(key, '') + line + '\n'
            return add
        add = None
        for ln in text.split('\n'):
            if ln.startswith('@'):
                w = ln[1:].split(None, 1); cmd = w[0]; arg = w[1].strip() if len(w) > 1 else ''
                add = None
                if cmd == 'driver':
                    d = self.__dict__
                    add = sink(d, 'driver')
                elif cmd == 'prelude': add = sink(self.__dict__, 'prelude')
                elif cmd == 'type':
                    a, b = arg.split('=>'); self.types[a.strip()] = b.strip()
                elif cmd == 'runtime': self.runtimes.append(arg.strip())
                elif cmd == 'heap':
                    a = arg.split(); self.heap[a[0]] = a[0]
                elif cmd == 'struct':
                    a, b = arg.split('=>'); self.structs.append((a.strip(), b.strip()))
                    self.types[a.strip()] = b.strip(); self.types.setdefault(re.sub(r'^cuhksz::', '', a.strip()), b.strip())
                elif cmd == 'nttp':
                    a, b = arg.split('=>'); self.nttp[a.strip()] = b.strip()
                elif cmd == 'extern':
                    a, b = arg.split('=>'); self.externs[a.strip()] = b.strip()
                elif cmd == 'optype':
                    a, b = arg.split('=>'); self.types[a.strip()] = b.strip(); self.optypes.add(b.strip())
                elif cmd == 'union':
                    # a union whose pointer members own what they point to: an enum that remembers the active member
                    a, b = arg.split('=>'); self.unions[a.strip()] = b.strip(); self.types[a.strip()] = b.strip(); self.types[a.strip().split('::')[-1]] = b.strip()
                elif cmd == 'heapalloc': self.heapalloc |= set(arg.split())
                elif cmd == 'rvref': self.rvref |= set(arg.split())
                elif cmd == 'filter': self.filters.append(arg)
                elif cmd == 'trusted': self.trusted.append(arg)
                elif cmd == 'fn':
                    m = re.match(r'(.+?)\s+as\s+(\w+)(?:\s+sig\s+(.*))?$', arg)
                    if not m: raise Exception('bad @fn ' + arg)
                    cur = FnSpec(m.group(1).strip()); cur.rust = m.group(2); cur.sig = m.group(3); loop = None
                    self.fns.append(cur)
                elif cmd == 'params': cur.params = arg.split()
                elif cmd == 'locals': cur.locals += arg.split()
                elif cmd == 'opt':
                    a = arg.split(None, 1); cur.opts[a[0]] = a[1] if len(a) > 1 else True
                elif cmd == 'attr': cur.attrs.append(arg)
                elif cmd == 'loop':
                    loop = LoopSpec(); cur.loops[int(arg)] = loop
                elif cmd in ('requires','ensures','entry','exit_ok','ret','decreases') and loop is None or cmd in ('requires','ensures','exit_ok','ret','entry','head'):
                    add = sink(cur.sec, cmd)
                    if arg: add(arg)
                elif cmd in ('invariant','decreases','before','begin','end','bodyend','after','invariant_except_break','loop_ensures'):
                    add = sink(loop.sec, cmd)
                    if arg: add(arg)
                elif cmd == 'if':
                    a = arg.split(); add = sink(cur.ifs, (int(a[0]), a[1]))
                elif cmd == 'aftercall':
                    a = arg.split(); add = sink(cur.calls, (a[0], int(a[1]) if len(a) > 1 else 0))
                elif cmd == 'beforecall':
                    a = arg.split(); add = sink(cur.calls, (a[0], int(a[1]) if len(a) > 1 else 0, 'before'))
                elif cmd == 'afterdecl': add = sink(cur.after_decl, arg)
                elif cmd == 'end_fn': cur = None; loop = None
                elif cmd == '#': pass
                else: raise Exception('unknown directive @%s in %s' % (cmd, self.path))
                continue
            if add: add(ln)

# ------------------------------------------------------------------ translation
class LV:
    """an lvalue: Rust expression to read it (by value), to borrow it, and to assign it"""
    def __init__(self, read, write, ref, mut, rty, place=None):
        self.read, self.write, self.ref, self.mut, self.rty, self.place = read, write, ref, mut, rty, place

COPY = INTS | {'It','(It, It)','(i32, i32)','bool','Ptr','Dbl','Num','()','StrPtr','TriePtr','MC','MI'}
def is_copy(t): return t in COPY

class FnTr:
    def __init__(self, gen, node, spec, cls):
        self.g, self.node, self.spec, self.cls = gen, node, spec, cls
        self.T = gen.types
        self.vars = {}       # decl id -> LV
        self.names = {}      # rust name -> count
        self.loopn = 0; self.ifn = 0; self.tmp = 0
        self.loop_stack = []
        self.local_list = []  # (cpp name, rust type, decl id)
        self.exit_used = False
        self.callcount = {}
        self.used_loops = set(); self.used_ifs = set(); self.used_calls = set(); self.used_decls = set()
        self.ret_mode = None
        self.inline_depth = 0
        self.this_lv = None
        self.itcont = {}     # iterator locals -> the container they walk
        self.fresh_objs = set()  # locals that hold an object made by this function with new
        self.freeze = None     # while a list: index / pointer subexpressions of an lvalue are bound once, here
    # -- helpers
    def fz(self, e):
        if self.freeze is None or re.match(r'^(-?\d+\w*|this)$', e): return e
        v = self.fresh('ix'); self.freeze.append('let %s = %s;' % (v, e)); return v
    def frozen_lv(self, n):
        """lvalue whose subexpressions are evaluated exactly once, now; returns (prefix code, lvalue)"""
        sv, self.freeze = self.freeze, []
        try: l = self.lv(n); pre = ' '.join(self.freeze)
        finally: self.freeze = sv
        return pre, l
    def once_lv(self, n):
        """as frozen_lv, but only where evaluating a subexpression twice would matter"""
        if side_effects(n): return self.frozen_lv(n)
        return '', self.lv(n)
    def fresh(self, p='t'):
        self.tmp += 1; return '%s__%d' % (p, self.tmp)
    def ty(self, n): return self.T.rust(qt(n))
    def local_name(self, name):
        name = self.g.rename.get((self.spec.rust, name), name)
        n = rid(name)
        # C++ scoping is lexical like Rust's; rename only where a live name would be shadowed
        live = set()
        for l in self.vars.values():
            live.update(re.findall(r'[A-Za-z_]\w*', l.place if isinstance(l.place, str) else (l.read or '')))
        live |= set(self.names)
        if n not in live: return n
        c = 2
        while '%s_%d' % (n, c) in live: c += 1
        return '%s_%d' % (n, c)
    def simple_lv(self, name, rty, mutref=False, constref=False):
        if mutref:
            return LV(('*%s' % name) if is_copy(rty) else '%s.dup()' % name, lambda e: '*%s = %s;' % (name, e), name, name, rty, '(*%s)' % name)
        if constref:
            return LV(('*%s' % name) if is_copy(rty) else '%s.dup()' % name, None, name, None, rty, '(*%s)' % name)
        return LV(name if is_copy(rty) else '%s.dup()' % name, lambda e: '%s = %s;' % (name, e), '&' + name, '&mut ' + name, rty, name)

    # -- lvalues
    def lv(self, n):
        k = n['kind']; c = kids(n)
        if k in ('ParenExpr','ExprWithCleanups','MaterializeTemporaryExpr','CXXBindTemporaryExpr','ConstantExpr','SubstNonTypeTemplateParmExpr'):
            return self.lv(c[0])
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp','LValueToRValue','UncheckedDerivedToBase','DerivedToBase','ArrayToPointerDecay'):
            b = self.lv(c[0])
            if n['castKind'].endswith('DerivedToBase'):
                for _ in n.get('path', []):
                    if b.rty in self.g.base_of: b = self.field_lv(b, 'base_', self.g.base_of[b.rty])
            return b
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['id'] in self.vars: return self.vars[d['id']]
            if d.get('kind') == 'EnumConstantDecl' and d['id'] in self.g.tu.enums: return LV('%d%s' % (self.g.tu.enums[d['id']], self.ty(n)), None, None, None, self.ty(n), None)
            return self.global_lv(d, n)
        if k == 'CXXThisExpr':
            return self.this_ptr()
        if k == 'UnaryOperator' and n['opcode'] == '*':
            s = self.skip(c[0])
            if s['kind'] == 'CXXThisExpr': return self.this_obj()
            if self.T_safe(c[0]) == 'It': return self.deref_it(c[0])
            b = self.lv(c[0])
            if b.rty == 'UPtr': return self.uptr_target(b, n)
            if b.rty.startswith('CArr<'): return self.index_lv(b, '0', b.rty)
            return self.deref_lv(b)
        if k == 'UnaryOperator' and n['opcode'] in ('++','--') and not n.get('isPostfix'):
            raise Unsupported('lvalue of ++')
        if k == 'MemberExpr':
            base = c[0]
            name = n['name']
            if n.get('isArrow'):
                s = self.skip(base)
                if s['kind'] == 'CXXThisExpr': b = self.this_obj()
                elif self.T_safe(base) == 'It': b = self.deref_it(base)
                else: b = self.deref_lv(self.lv_or_tmp(base))
            else: b = self.lv_or_tmp(base)
            if b.rty in self.g.spec.unions.values(): return self.union_lv(b, n)
            if b.rty == 'KeyVal' and name in ('first','second'):
                ref = '%s.%s(%s)' % (b.place[0], 'key_at' if name == 'first' else 'val_at', b.place[1])
                t = 'Str' if name == 'first' else b.place[2]
                return LV('(*%s).dup()' % ref, None, ref, None, t, '(*%s)' % ref)
            if b.rty == 'HeapObj' and len(self.g.spec.heap) > 1:
                name = re.sub(r'[\s*]+$', '', strip_cv(qt(base))).split('::')[-1] + '_' + name
            if b.rty.startswith('(') and name in ('first','second'):
                f = '0' if name == 'first' else '1'; rd = '%s.%s' % (self.paren(b.read), f)
                l = LV(rd, None, None, None, self.ty(n), None)
                return l
            return self.field_lv(b, name, self.ty(n))
        if k == 'ArraySubscriptExpr':
            b = self.lv_or_tmp(c[0]); i = self.as_u64(c[1])
            return self.index_lv(b, i, b.rty)
        if k == 'CXXOperatorCallExpr' and self.opname(n) in ('*','->') and self.T_safe(c[1]) == 'It':
            return self.deref_it(c[1])
        if k == 'CXXOperatorCallExpr':
            op = self.opname(n)
            if op == '[]':
                b = self.lv_or_tmp(c[1]); 
                if b.rty == 'CMap':
                    i = self.fz(self.ex(c[2])); pl = b.place
                    l = LV('{ let i__ = %s.index(%s); %s.at_pos(i__).1 }' % (pl, i, pl), lambda x: '{ let x__ = %s; %s.set_index(%s, x__); }' % (x, pl, i), None, None, 'i32', None)
                    l.elem = (b, '%s.index(%s)' % (pl, i)); return l
                if b.rty.startswith(('CVec<','CArr<','Str','CDeque<')):
                    return self.index_lv(b, self.as_u64(c[2]), b.rty)
                f = self.callee_decl(n)
                r = self.g.resolve(f)
                if r is None: raise Unsupported('operator[] on ' + b.rty)
                if r[0] is not None and (r[3].opts.get('retmut') or r[3].opts.get('retcref')): return self.refcall_lv(r, b, c[2:])
                return self.call_lv(n, r, [c[1]] + c[2:])
        if k in ('CXXMemberCallExpr',):
            m = self.member_callee(n)
            name = m['name']
            rr = self.g.resolve({'id': m.get('referencedMemberDecl'), 'name': name})
            if rr is not None and rr[0] is not None and (rr[3].opts.get('retmut') or rr[3].opts.get('retcref')): return self.refcall_lv(rr, self.member_base(m), [a for a in c[1:] if a['kind'] != 'CXXDefaultArgExpr'])
            ob = self.member_base(m)
            if ob is not None and ob.rty in self.UCONT and name in ('operator[]','at'):
                a0 = self.as_u64(c[1]) if ob.rty == 'JList' else self.borrow(c[1])
                if ob.mut is None: ref = '%s.%s(%s)' % (ob.place, 'at_ref' if ob.rty == 'JList' else 'find_ref', a0); return LV('(*%s).dup()' % ref, None, ref, None, 'Json', '(*%s)' % ref)
                mut = '%s.%s(%s)' % (ob.mut, ('index_mut' if ob.rty == 'JList' else 'index_mut') if name == 'operator[]' else 'at_mut', a0)
                return LV(None, None, mut, mut, 'Json', '(*%s)' % mut)
            if ob is not None and name == 'at' and ob.rty.startswith(('CVec<','CArr<','Str','CDeque<')):
                return self.index_lv(ob, self.as_u64(c[1]), ob.rty)
            if ob is not None and name == 'get' and ob.rty.startswith('CArr<'): return ob
            if ob is not None and name in ('front','back','top') and ob.rty.startswith(('CVec<','CList<','CDeque<','CStack<','CQueue<')) and isinstance(ob.place, str):
                return self.index_lv(ob, '0u64' if name == 'front' else 'sub_u64(%s.size(), 1u64)' % ob.place, ob.rty)
            if ob is not None and name == 'at' and ob.rty == 'CMap' and isinstance(ob.place, str):
                i = self.fz(self.ex(c[1])); l = LV('%s.at(%s)' % (ob.place, i), None, None, None, 'i32', None); l.elem = (ob, '{ %s.at(%s); %s.find(%s) }' % (ob.place, i, ob.place, i)); return l
        raise Unsupported('lvalue kind %s' % k)
    # -- unions (see @union)
    def union_lv(self, b, n):
        name = n['name']; ft = qt(n).strip()
        ft = re.sub(r'\s*const$', '', ft)
        if not isinstance(b.place, str): raise Unsupported('union inside an element')
        if ft.endswith('*'):
            t = self.T.rust(ft[:-1])
            w = lambda e: '%s.set_null();' % b.place if e == 'NULLP' else '{ let x__ = %s; %s.set_%s(x__); }' % (e, b.place, name)
            return LV(None, w if b.mut is not None else None, None, None, 'UPtr', (b, name, t))
        t = self.T.rust(ft)
        return LV('%s.get_%s()' % (b.place, name), (lambda e: '{ let x__ = %s; %s.set_%s(x__); }' % (e, b.place, name)) if b.mut is not None else None, None, None, t, None)
    def uptr_target(self, u, n):
        b, name, t = u.place
        ref = '%s.ref_%s()' % (b.place, name); mut = '%s.mut_%s()' % (b.place, name) if b.mut is not None else None
        return LV('(*%s).dup()' % ref, (lambda e: '{ let x__ = %s; *%s = x__; }' % (e, mut)) if mut else None, ref, mut, t, '(*%s)' % ref)
    def union_copy(self, a):
        # the bits of a union: from a source that is not const they are taken over (and must then be disowned there)
        s = a
        while s['kind'] in ('ImplicitCastExpr','ParenExpr','MaterializeTemporaryExpr'): s = kids(s)[0]
        l = self.lv(s)
        return '%s.steal()' % l.place if l.mut is not None else '%s.copy()' % l.place
    def union_ctor(self, t, base, ctor, args):
        q = [k for k, v in self.g.spec.unions.items() if v == t][0]
        for _, n, cls in self.g.tu.funcs:
            if cls == q and n['kind'] == 'CXXConstructorDecl' and n['type']['qualType'].split(' noexcept')[0] == ctor.split(' noexcept')[0] and has_body(n):
                ini = [c for c in kids(n) if c['kind'] == 'CXXCtorInitializer']
                if kids(body_of(n)) or len(ini) != 1: raise Unsupported('union constructor')
                saved = dict(self.vars); pre = ''
                for p, a in zip(params_of(n), args):
                    v = self.fresh('ua'); rt = self.T.rust(qt(p)); pre += 'let %s: %s = %s; ' % (v, rt, self.init_expr(a, rt)); self.vars[p['id']] = self.simple_lv(v, rt)
                f = ini[0]['anyInit']['name']; e = kids(ini[0])[0]
                r = '{ %s%s::%s(%s) }' % (pre, t, f, self.ex(e)); self.vars = saved
                return r
        raise Unsupported('union constructor ' + ctor)
    # -- iterators: positions in the container they were obtained from
    UCONT = ('JList','JMap')
    CONT = ('CVec<','CList<','CDeque<','CStack<','CQueue<','CSet','CMultiSet','CMap','CMultiMap')
    def cont_of(self, n):
        s = self.skip(n); k = s['kind']
        if k == 'DeclRefExpr':
            if s['referencedDecl']['id'] in self.itcont: return self.itcont[s['referencedDecl']['id']]
        elif k == 'CXXMemberCallExpr':
            ob = self.member_base(self.member_callee(s))
            if ob is not None and ob.rty.startswith(self.CONT) and isinstance(ob.place, str): return ob
        elif k == 'MemberExpr' or k in ('CXXConstructExpr','UnaryOperator','ImplicitCastExpr','CXXFunctionalCastExpr','CXXStaticCastExpr') and len(kids(s)) == 1: return self.cont_of(kids(s)[0])
        elif k == 'CXXOperatorCallExpr': return self.cont_of(kids(s)[1])
        elif k == 'CallExpr' and self.callee_decl(s).get('name') in ('next','prev'): return self.cont_of(kids(s)[1])
        raise Unsupported('iterator of unknown container')
    def deref_it(self, n):
        c = self.cont_of(n); i = self.ex(n)
        if c.rty in ('CSet','CMultiSet','CMap','CMultiMap'):
            et = 'i32' if 'Set' in c.rty else '(i32, i32)'
            l = LV('%s.at_pos(%s)' % (c.place, i), None, None, None, et, None); l.elem = (c, i); return l
        return self.index_lv(c, i, c.rty)
    def it_expr(self, n):
        # std::pair<It, It>::first etc. are handled as fields; conversions iterator -> const_iterator are the identity
        return self.ex(n)
    def call_lv(self, n, r, args, obj=None):
        """call of an accessor whose body is a single `return <lvalue>;`: that lvalue, with the arguments substituted"""
        name, node, cls, fs = r
        st = kids(body_of(node)) if has_body(node) else []
        if name is not None or len(st) != 1 or st[0]['kind'] != 'ReturnStmt' or not kids(st[0]): raise Unsupported('call returning a reference used as an lvalue')
        saved = dict(self.vars); sv_this = self.this_lv
        if node['kind'] == 'CXXMethodDecl':
            o = obj if obj is not None else self.lv_or_tmp(args[0])
            if obj is None: args = args[1:]
            o = o.place[1] if o.rty == 'HeapObj' else o
        else: o = sv_this
        new = {}
        for p, a in zip(params_of(node), args):
            pt = qt(p).strip(); rt = self.T.rust(pt)
            if assigns_to(node, p['id']): raise Unsupported('accessor modifies its parameter')
            if is_copy(rt):
                e = self.ex(a)
                if side_effects(a): e = self.fz(e) if self.freeze is not None else None
                if e is None: raise Unsupported('argument with side effects in an accessor call')
                new[p['id']] = LV(self.paren(e), None, None, None, rt, None)
            else: new[p['id']] = self.lv_or_tmp(a)
        self.vars.update(new); self.this_lv = o
        try:
            e = kids(st[0])[0]
            while e['kind'] in ('ImplicitCastExpr','ParenExpr') and e.get('castKind','NoOp') in ('LValueToRValue','NoOp'): e = kids(e)[0]
            return self.lv(e)
        finally: self.vars = saved; self.this_lv = sv_this
    def refcall_lv(self, r, obj, args):
        e = self.emit_call(r, obj, args); t = self.g.ret_type(r[1])
        return LV(None, None, e, e if r[3].opts.get('retmut') else None, t, '(*%s)' % e)
    def lv_or_tmp(self, n):
        try: return self.lv(n)
        except Unsupported:
            e = self.ex(n); t = self.ty(n)
            return LV(e, None, '&' + self.paren(e), '&mut ' + self.paren(e), t, '(%s)' % e)
    def this_ptr(self): 
        return self.this_lv
    def this_obj(self):
        if self.this_lv is None: raise Unsupported('this')
        if self.this_lv.rty == 'Ptr': return self.deref_lv(self.this_lv)
        return self.this_lv
    def deref_lv(self, p):
        if p.rty == 'UPtr': return self.uptr_target(p, None)
        if p.rty == 'StrPtr':
            e = '%s.get()' % self.paren(p.read); return LV(e + '.dup()', None, e, None, 'Str', '(*%s)' % e)
        if p.rty == 'TriePtr':
            e = '%s.get()' % self.paren(p.read); return LV(None, None, e, None, 'Trie', '(*%s)' % e)
        if p.rty != 'Ptr': 
            return p
        return LV(None, None, None, None, 'HeapObj', ('heapobj', p))
    def field_lv(self, b, name, rty):
        name = rid(name)
        if b.rty == 'HeapObj':
            p = self.fz(b.place[1].read)
            self.uses_heap()
            return LV('h.get_%s(%s)' % (name, p), lambda e: self.heap_write('h.set_%s(%%s%%s)' % name, [p], e), 'h.ref_%s(%s)' % (name, p), None, rty, ('heapfield', name, p))
        if isinstance(b.place, tuple) and b.place[0] == 'elem' and b.ref:
            b = LV(b.read, None, b.ref, None, b.rty, '(*%s)' % b.ref)      # a member of a container element: read only
        pl = '%s.%s' % (b.place, name)
        if b.mut is None and self.g.spec.unions: return LV(pl if is_copy(rty) else pl + '.dup()', None, '&' + pl, None, rty, pl)
        return LV(pl if is_copy(rty) else pl + '.dup()', lambda e: '%s = %s;' % (pl, e), '&' + pl, '&mut ' + pl, rty, pl)
    def uses_heap(self): pass
    @staticmethod
    def heap_write(call, args, e):
        # operands that read the heap are evaluated before the write borrows it
        out = []; pre = []
        for k, a in enumerate(args + [e]):
            if re.match(r'^\w+$', a): out.append(a)
            else: pre.append((k, a)); out.append('x%d__' % k)
        # the value first (right to left), as C++17 does for assignments
        pre = pre[::-1] if pre and pre[-1][0] == len(args) else pre
        c = call % (', '.join(out[:-1]) + ', ', out[-1]) + ';'
        return c if not pre else '{ %s%s }' % (''.join('let x%d__ = %s; ' % q for q in pre), c)
    def elem(self, rty):
        if rty == 'Str': return 'i8'
        m = re.match(r'^\w+<(.*)>$', rty)
        return m.group(1)
    def index_lv(self, b, i, rty):
        e = self.elem(rty); i = self.fz(i)
        if isinstance(b.place, tuple) and b.place[0] == 'heapfield':
            _, f, p = b.place
            return LV('h.get_%s_at(%s, %s)' % (f, p, i), lambda x: self.heap_write('h.set_%s_at(%%s%%s)' % f, [p, i], x), None, None, e, None)
        if isinstance(b.place, tuple) and b.place[0] == 'elem':
            _, bb, i0 = b.place
            base = bb.place
            rd = '%s.at_ref(%s).at(%s)' % (base, i0, i)
            return LV(rd, lambda x: '{ let x__ = %s; %s.put2(%s, %s, x__); }' % (x, base, i0, i), '%s.at_ref(%s).at_ref(%s)' % (base, i0, i), None, e, None)
        base = b.place if isinstance(b.place, str) else self.paren(b.ref)
        rd = '%s.at(%s)' % (base, i)
        ref = '%s.at_ref(%s)' % (base, i)
        l = LV(rd, lambda x: '{ let x__ = %s; %s.put(%s, x__); }' % (x, base, i), ref if not rty.startswith(('CList<','CDeque<','CStack<','CQueue<')) else None, None, e, ('elem', b, i) if not is_copy(e) else None); l.elem = (b, i)
        return l
    def global_lv(self, d, n):
        i = d['id']
        v = self.g.tu.vars.get(i)
        if v is None: raise Unsupported('reference to %s' % d.get('name'))
        return self.g.global_const(v, self)
    # -- rvalues
    def paren(self, e):
        return e if re.match(r'^[\w.]+$', e) or (e.startswith('(') and e.endswith(')') and self.balanced(e)) else '(%s)' % e
    @staticmethod
    def balanced(e):
        d = 0
        for i, ch in enumerate(e):
            if ch == '(': d += 1
            if ch == ')':
                d -= 1
                if d == 0 and i < len(e) - 1: return False
        return True
    def skip(self, n):
        while n['kind'] in ('ParenExpr','ExprWithCleanups','MaterializeTemporaryExpr','CXXBindTemporaryExpr','ConstantExpr') or n['kind'] == 'SubstNonTypeTemplateParmExpr' and not self.g.spec.nttp or (n['kind'] == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp','LValueToRValue','FunctionToPointerDecay','BuiltinFnToFnPtr','ArrayToPointerDecay') + (() if self.g.base_of else ('UncheckedDerivedToBase','DerivedToBase'))):
            n = kids(n)[0]
        return n
    def as_u64(self, n):
        # an index expression, as u64
        e = self.ex(n); t = self.ty(n)
        if t == 'u64': return e
        return self.cast(e, t, 'u64')
    def cast(self, e, f, t):
        if f == t: return e
        if t == 'bool':
            if f in INTS: return '(%s != 0)' % self.paren(e)
            if f == 'Ptr': return '(%s != NULLP)' % self.paren(e)
            if f == 'Dbl': return 'dbl_nz(%s)' % e
        m = re.match(r'^(-?\d+)(i8|u8|i16|i32|u32|i64|u64)$', e)
        if m and t in INTS:
            v = int(m.group(1)); lo, hi = int_range(t)
            if lo <= v <= hi: return '%d%s' % (v, t) if v >= 0 else '(%d%s)' % (v, t)
        if f in INTS | {'bool'} and t in INTS: return 'c_%s_%s(%s)' % (f, t, e)
        if f in INTS and t == 'Num': return 'num_%s(%s)' % (f, e)
        if f in INTS and t == 'Dbl': return 'dbl_%s(%s)' % (f, e)
        if f == 'Dbl' and t in INTS: return 'dbl_to_%s(%s)' % (t, e)
        if f == 'Num' and t == 'i32': return 'num_to_i32(%s)' % e
        if f == 'Num' and t == 'bool': return 'num_ne(%s, num_i32(0i32))' % e
        raise Unsupported('cast %s -> %s' % (f, t))
    def opname(self, n):
        f = self.skip(kids(n)[0])
        if f['kind'] != 'DeclRefExpr': raise Unsupported('operator callee')
        return f['referencedDecl']['name'][len('operator'):]
    def callee_decl(self, n):
        f = self.skip(kids(n)[0])
        if f['kind'] == 'DeclRefExpr': return f['referencedDecl']
        if f['kind'] == 'MemberExpr': return {'id': f.get('referencedMemberDecl'), 'name': f['name']}
        raise Unsupported('callee kind ' + f['kind'])
    def member_callee(self, n):
        m = self.skip(kids(n)[0])
        if m['kind'] != 'MemberExpr': raise Unsupported('member call through ' + m['kind'])
        return m
    def member_base(self, m):
        b = kids(m)[0]
        if m.get('isArrow'):
            if self.skip(b)['kind'] == 'CXXThisExpr': return self.this_obj()
            l = self.lv_or_tmp(b)
            return self.deref_lv(l)
        return self.lv_or_tmp(b)
    def ex(self, n):
        """Rust expression computing n's value (by value)."""
        k = n['kind']; c = kids(n)
        if k in ('ParenExpr',):
            return self.paren(self.ex(c[0]))
        if k == 'SubstNonTypeTemplateParmExpr' and self.g.spec.nttp:
            lit = [x for x in c if x['kind'] == 'IntegerLiteral']
            if lit and lit[0]['value'] in self.g.spec.nttp: return self.g.spec.nttp[lit[0]['value']]
            c = lit or c
        if k in ('ExprWithCleanups','MaterializeTemporaryExpr','CXXBindTemporaryExpr','ConstantExpr','SubstNonTypeTemplateParmExpr','CXXDefaultInitExpr'):
            if not c: raise Unsupported(k)
            return self.ex(c[0])
        if k == 'CXXDefaultArgExpr':
            raise Unsupported('default argument')
        if k == 'IntegerLiteral': return '%s%s' % (n['value'], self.ty(n))
        if k == 'CharacterLiteral':
            v = n['value']; t = self.ty(n)
            if t == 'i8' and v > 127: v -= 256
            return '%d%s' % (v, t) if v >= 0 else '(%d%s)' % (v, t)
        if k == 'CXXBoolLiteralExpr': return 'true' if n['value'] else 'false'
        if k == 'FloatingLiteral' and self.ty(n) == 'Num':
            if float(n['value']) != int(float(n['value'])) or abs(float(n['value'])) > 2**31 - 1:
                from fractions import Fraction
                q = Fraction(repr(float(n['value'])))
                if q.denominator > 10**17 or abs(q.numerator) > 10**17: raise Unsupported('literal %s' % n['value'])
                return 'num_lit(%di64, %di64)' % (q.numerator, q.denominator)
            return 'num_i32(%di32)' % int(float(n['value']))
        if k == 'FloatingLiteral' and float(n['value']) == 0: return 'dbl_zero()'
        if k == 'FloatingLiteral': return 'dbl_lit(%s)' % self.g.dbl_literal(n['value'])
        if k == 'StringLiteral': return 'str_lit(%s)' % self.strlit(n)
        if k in ('CXXNullPtrLiteralExpr','GNUNullExpr'): return 'NULLP'
        if k == 'CXXThisExpr' and self.T.map.get(strip_cv(qt(n))) == 'TriePtr': return 'trie_addr(%s)' % self.this_obj().ref
        if k == 'CXXThisExpr': return self.this_lv.read
        if k in ('ImplicitCastExpr','CStyleCastExpr','CXXStaticCastExpr','CXXFunctionalCastExpr'):
            ck = n.get('castKind')
            if ck in ('LValueToRValue',): return self.lv_read(c[0])
            if ck in ('NoOp','ArrayToPointerDecay','FunctionToPointerDecay','UserDefinedConversion','DerivedToBase','UncheckedDerivedToBase','NonAtomicToAtomic'): return self.ex(c[0])
            if ck == 'ConstructorConversion': return self.ex(c[0])
            if ck == 'NullToPointer': return 'NULLP'
            if ck in ('IntegralCast','IntegralToBoolean','PointerToBoolean','IntegralToFloating','FloatingToIntegral','FloatingCast','FloatingToBoolean','BooleanToSignedIntegral'):
                return self.cast(self.ex(c[0]), self.ty(c[0]), self.ty(n))
            if ck == 'ToVoid': return '{ %s; }' % self.ex(c[0])
            raise Unsupported('cast kind %s' % ck)
        if k == 'DeclRefExpr' or k == 'MemberExpr' or k == 'ArraySubscriptExpr':
            return self.lv_read(n)
        if k == 'UnaryOperator': return self.unary(n)
        if k == 'BinaryOperator': return self.binary(n)
        if k == 'CompoundAssignOperator': return self.compound(n, want=True)
        if k == 'ConditionalOperator':
            return '(if %s { %s } else { %s })' % (self.cond(c[0]), self.ex(c[1]), self.ex(c[2]))
        if k == 'CXXConstructExpr' or k == 'CXXTemporaryObjectExpr': return self.construct(n)
        if k == 'CXXOperatorCallExpr': return self.opcall(n)
        if k == 'CXXMemberCallExpr': return self.membercall(n)
        if k == 'CallExpr': return self.call(n)
        if k == 'CXXNewExpr': return self.new(n)
        if k == 'InitListExpr':
            t = self.ty(n)
            if len(c) == 1 and t in PRIMS.values(): return self.ex(c[0])
            if len(c) == 1 and t == 'Num': return self.cast(self.ex(c[0]), self.ty(c[0]), 'Num')
            raise Unsupported('init list')
        if k == 'CXXScalarValueInitExpr' or k == 'ImplicitValueInitExpr':
            t = self.ty(n)
            if t in INTS: return '0' + t
            if t == 'bool': return 'false'
            if t == 'Dbl': return 'dbl_zero()'
            raise Unsupported('value init ' + t)
        if k == 'UnaryExprOrTypeTraitExpr':
            if n.get('name') == 'sizeof':
                a = n.get('argType', {}); at = a.get('desugaredQualType') or a.get('qualType')
                sz = {'int':4,'double':8,'char':1,'bool':1,'long':8,'float':4,'unsigned int':4}.get(strip_cv(at or ''))
                if sz is None: raise Unsupported('sizeof ' + str(at))
                return '%du64' % sz
        if k == 'LambdaExpr': raise Unsupported('lambda')
        if k == 'CXXDeleteExpr': return self.delete(n)
        raise Unsupported('expression kind %s' % k)
    def lv_read(self, n):
        while n['kind'] == 'ParenExpr': n = kids(n)[0]
        if n['kind'] in ('ConditionalOperator',): return self.ex(n)
        if n['kind'] == 'CallExpr' and self.callee_decl(n).get('name') in ('max','min','move','forward'): return self.call(n)
        if n['kind'] in ('BinaryOperator','CompoundAssignOperator') or n['kind'] == 'UnaryOperator' and n['opcode'] in ('++','--'): return self.ex(n)
        l = self.lv(n)
        if l.read is None: raise Unsupported('reading ' + n['kind'])
        return l.read
    def strlit(self, n):
        s = json.loads(re.sub(r'\\x([0-9a-fA-F]{2})', r'\\u00\1', re.sub(r'\\([0-7]{1,3})', lambda m: '\\u00%02x' % int(m.group(1), 8), n['value'].replace("\\'", "'").replace('\\a','\\u0007').replace('\\v','\\u000b'))))
        b = s.encode('utf-8') if all(ord(ch) < 128 for ch in s) else s.encode('latin-1', 'replace')
        return 'vec![%s]' % ', '.join('%di8' % (x if x < 128 else x - 256) for x in b) if b else 'Vec::<i8>::new()'
    def cond(self, n):
        e = self.ex(n); t = self.ty(n)
        return e if t == 'bool' else self.cast(e, t, 'bool')
    def arith(self, op, a, b, t):
        if t in SIGNED:
            if op == '+': return '(%s + %s)' % (a, b)
            if op == '-': return '(%s - %s)' % (a, b)
            if op == '*':
                neg1 = '(-1%s)' % t
                if b == neg1: return '(0%s - %s)' % (t, a)
                if a == neg1: return '(0%s - %s)' % (t, b)
                return '(%s * %s)' % (a, b)
            if op == '/': return 'div_%s(%s, %s)' % (t, a, b)
            if op == '%': return 'rem_%s(%s, %s)' % (t, a, b)
        elif t in INTS:
            nm = {'+':'add','-':'sub','*':'mul','/':'div','%':'rem'}
            if op in nm: return '%s_%s(%s, %s)' % (nm[op], t, a, b)
        elif t in ('Dbl','Num'):
            nm = {'+':'add','-':'sub','*':'mul','/':'div'}
            if op in nm: return '%s_%s(%s, %s)' % (t.lower(), nm[op], a, b)
        if t in INTS and op in ('&','|','^'):
            return '%s_%s(%s, %s)' % ({'&':'and','|':'or','^':'xor'}[op], t, a, b)
        raise Unsupported('operator %s on %s' % (op, t))
    def unary(self, n):
        op = n['opcode']; c = kids(n); s = c[0]
        if op == '*' : return self.lv_read(n)
        if op == '&':
            l = self.lv(s); t = self.T_safe(n)
            if l.rty == 'HeapObj': return l.place[1].read
            if t == 'StrPtr' and l.rty == 'Str' and l.ref: return 'str_addr(%s)' % l.ref
            # a pointer to a local that is not used by its own name while the pointer is (else Rust rejects the move)
            if t == l.rty and isinstance(l.place, str) and re.match(r'^\w+$', l.place): return l.place
            raise Unsupported('address-of')
        if op == '!':
            return '!%s' % self.paren(self.cond(s))
        if op == '-':
            t = self.ty(n); e = self.ex(s)
            m = re.match(r'^(\d+)(i8|i16|i32|i64)$', e)
            if m: return '(-%s%s)' % (m.group(1), m.group(2))
            if t in SIGNED: return '(0%s - %s)' % (t, e)
            if t in ('Dbl','Num'): return '%s_neg(%s)' % (t.lower(), e)
            if t in INTS: return 'sub_%s(0, %s)' % (t, e)
            raise Unsupported('unary - on ' + t)
        if op == '+': return self.ex(s)
        if op == '~': raise Unsupported('~')
        if op in ('++','--'):
            fpre, l = self.once_lv(s); t = l.rty
            if l.write is None: raise Unsupported('++ on const')
            one = '1' + t if t in INTS else None
            if one is None: raise Unsupported('++ on ' + t)
            if t in ('i8','u8','i16','u16'): raise Unsupported('++ on small int')
            upd = lambda v: l.write(self.arith(op[0], v, one, t))
            if n.get('isPostfix'):
                v = self.fresh('pp')
                return '{ %s let %s = %s; %s %s }' % (fpre, v, l.read, upd(v), v)
            return '{ %s %s %s }' % (fpre, upd(l.read), l.read)
        if op == '__extension__': return self.ex(s)
        raise Unsupported('unary ' + op)
    def binary(self, n):
        op = n['opcode']; a, b = kids(n)
        if op == ',': return '{ %s %s }' % (self.stmt_expr(a), self.ex(b))
        if op == '=':
            fpre, l = self.once_lv(a)
            if l.write is None: raise Unsupported('assignment to const/complex lvalue')
            return '{ %s %s %s }' % (fpre, l.write(self.ex(b)), l.read)
        if op == '&&': return '(%s && %s)' % (self.blk(self.cond(a)), self.blk(self.cond(b)))
        if op == '||': return '(%s || %s)' % (self.blk(self.cond(a)), self.blk(self.cond(b)))
        if op in ('==','!=') and (self.is_addr_cmp(a, b) or self.is_addr_cmp(b, a)): return 'false' if op == '==' else 'true'
        ta, tb = self.ty(a), self.ty(b)
        if op in ('==','!=','<','>','<=','>='):
            ea, eb = self.ex(a), self.ex(b)
            if ta == 'Num' or tb == 'Num':
                nm = {'==':'eq','!=':'ne','<':'lt','>':'gt','<=':'le','>=':'ge'}[op]
                return 'num_%s(%s, %s)' % (nm, self.cast(ea, ta, 'Num'), self.cast(eb, tb, 'Num'))
            if ta == 'Dbl' or tb == 'Dbl':
                nm = {'==':'eq','!=':'ne','<':'lt','>':'gt','<=':'le','>=':'ge'}[op]
                return 'dbl_%s(%s, %s)' % (nm, ea, eb)
            if ta == tb == 'TriePtr' and op in ('==','!='): return '%strieptr_eq(%s, %s)' % ('!' if op == '!=' else '', ea, eb)
            if ta == tb == 'StrPtr' and op in ('==','!='): return '%sstrptr_eq(%s, %s)' % ('!' if op == '!=' else '', ea, eb)
            if ta != tb and not (ta == 'Ptr' or tb == 'Ptr'): raise Unsupported('comparison %s %s' % (ta, tb))
            if not is_copy(ta) : raise Unsupported('comparison on ' + ta)
            return '(%s %s %s)' % (self.paren(ea), op, self.paren(eb))
        if op in ('<<','>>'):
            t = self.ty(n); s = self.ex(b)
            if tb != 'i32': s = self.cast(s, tb, 'i32')
            return '%s_%s(%s, %s)' % ({'<<':'shl','>>':'shr'}[op], t, self.ex(a), s)
        return self.arith(op, self.ex(a), self.ex(b), self.ty(n))
    def is_addr_cmp(self, a, b):
        # `this == &other`: the translated functions are verified for distinct objects (stated assumption)
        a, b = self.skip(a), self.skip(b)
        return a['kind'] == 'CXXThisExpr' and b['kind'] == 'UnaryOperator' and b['opcode'] == '&'
    def blk(self, e): return e if not e.startswith('{') else '(%s)' % e
    def assign(self, a, b):
        l = self.lv(a)
        if l.rty.startswith('CArr<') and qt(a).strip().endswith('*') and self.skip(b)['kind'] not in ('CXXNewExpr','CallExpr'): raise Unsupported('copy of an owning pointer')
        if l.write is None: raise Unsupported('assignment to const/complex lvalue')
        return l, l.write(self.ex(b))
    def compound(self, n, want):
        op = n['opcode'][:-1]; a, b = kids(n)
        fpre, l = self.once_lv(a)
        if l.write is None: raise Unsupported('compound assignment')
        lt = l.rty
        ct = self.T.rust(n.get('computeResultType', {}).get('desugaredQualType') or n.get('computeResultType', {}).get('qualType') or qt(n))
        clt = self.T.rust(n.get('computeLHSType', {}).get('desugaredQualType') or n.get('computeLHSType', {}).get('qualType') or qt(n))
        cur = self.cast(l.read, lt, clt)
        rhs = self.ex(b)
        if op in ('<<','>>'):
            s = rhs if self.ty(b) == 'i32' else self.cast(rhs, self.ty(b), 'i32')
            v = '%s_%s(%s, %s)' % ({'<<':'shl','>>':'shr'}[op], ct, cur, s)
        else:
            v = self.arith(op, cur, rhs, ct)
        st = l.write(self.cast(v, ct, lt))
        if fpre: return '{ %s %s %s }' % (fpre, st, l.read if want else '')
        return '{ %s %s }' % (st, l.read) if want else st
    # -- construction
    def construct(self, n):
        c = kids(n); t = self.ty(n)
        ctor = n.get('ctorType', {}).get('qualType', '')
        args = [a for a in c if a['kind'] != 'CXXDefaultArgExpr']
        base = strip_cv(qt(n))
        is_copymove = len(args) == 1 and re.match(r'^void \((const )?[\w:<>, \[\]*]+ ?&&?\)', ctor) and self.T_safe(args[0]) == t
        if t in self.g.spec.unions.values():
            if len(args) == 1 and self.T_safe(args[0]) == t: return self.union_copy(args[0])
            return self.union_ctor(t, base, ctor, args)
        r = self.g.resolve_ctor(base, ctor)
        if is_copymove and (r is None or n.get('elidable')):
            return self.value_of(args[0])
        if r is not None: return self.emit_call(r, None, args)
        if t in self.UCONT:
            if not args: return '%s::new()' % t
            if len(args) == 2:
                def rng(a, w):
                    x = self.skip(a)
                    while x['kind'] in ('CXXConstructExpr','ImplicitCastExpr') and len(kids(x)) == 1: x = self.skip(kids(x)[0])
                    if x['kind'] != 'CXXMemberCallExpr' or self.member_callee(x)['name'] not in w: raise Unsupported('range construction')
                    return self.member_base(self.member_callee(x))
                b, e = rng(args[0], ('begin','cbegin')), rng(args[1], ('end','cend'))
                if b.rty == t and b.ref == e.ref: return '%s_copy(%s)' % (t.lower(), b.ref)
            raise Unsupported('construction of ' + t)
        if t == 'Iss' and len(args) == 1: return 'Iss::of(%s)' % self.borrow(args[0])
        if t == 'Str':
            if not args: return 'Str::new()'
            ta = self.T_safe(args[0])
            a0 = self.skip(args[0])
            if len(args) == 1 and a0['kind'] == 'ConditionalOperator':
                k0, k1, k2 = kids(a0); k1, k2 = self.skip(k1), self.skip(k2)
                if k1['kind'] == k2['kind'] == 'StringLiteral': return '(if %s { str_lit(%s) } else { str_lit(%s) })' % (self.cond(k0), self.strlit(k1), self.strlit(k2))
            if len(args) == 1 and a0['kind'] == 'StringLiteral': return 'str_lit(%s)' % self.strlit(a0)
            if len(args) == 1 and ta == 'Str': return self.value_of(args[0])
            if len(args) == 1 and ta == 'CArr<i8>': return 'str_of_carr(%s)' % self.lv(args[0]).ref
            if len(args) == 2 and ta == 'u64': return 'Str::fill(%s, %s)' % (self.ex(args[0]), self.ex(args[1]))
        if t == 'It' and len(args) == 1 and self.T_safe(args[0]) == 'It': return self.ex(args[0])
        if t.startswith(self.CONT) and not args: return '%s::new()' % t.replace('<','::<',1)
        if t.startswith('CVec<') and len(args) == 1 and re.match(r'^void \((size_type|std::size_t|unsigned long)\b', ctor): return '%s::sized(%s)' % (t.replace('<','::<',1), self.as_u64(args[0]))
        if t.startswith('CVec<') and len(args) == 1 and self.T_safe(args[0]) == t: return self.value_of(args[0])
        if t.startswith('CArr<'):
            if len(args) == 1: return self.ex(args[0])
            if not args: return '%s::alloc(0)' % t.replace('<','::<',1)
        if t == 'Oss' and not args: return 'Oss::new()'
        if t == 'Mt' and not args: return 'Mt::new()'
        if t == 'Mt' and len(args) == 1 and self.T_safe(args[0]) == 'u64': return 'Mt::seeded(%s)' % self.ex(args[0])
        if t.startswith('Bitset'):
            ta = self.T_safe(args[0])
            if ta == 'u64': return '%s::from_u64(%s)' % (t, self.ex(args[0]))
            if ta == 'Str': return '%s::from_str(%s)' % (t, self.borrow(args[0]))
        if self.g.is_plain_struct(t) and is_copymove: return self.value_of(args[0])
        x = self.g.external_call('ctor_' + re.sub(r'\W', '_', t), self, args)
        if x: return x
        raise Unsupported('construction of %s with %s' % (qt(n), ctor))
    def construct_from(self, fn, a): return '%s(%s)' % (fn, self.borrow(a))
    def T_safe(self, n):
        try: return self.ty(n)
        except Unsupported: return None
    def value_of(self, n):
        s = self.skip(n)
        if s['kind'] in ('DeclRefExpr','MemberExpr','ArraySubscriptExpr') or (s['kind'] == 'UnaryOperator' and s['opcode'] == '*') or s['kind'] == 'CXXOperatorCallExpr' and self.opname(s) == '[]':
            return self.lv_read(s)
        return self.ex(n)
    def borrow(self, n):
        """expression n passed as const T&"""
        try:
            l = self.lv(n)
            if l.ref is not None: return l.ref
            if l.read is not None: return '&' + l.read
        except Unsupported: pass
        return '&' + self.paren(self.ex(n))
    def new(self, n):
        c = kids(n)
        t = qt(n)
        if n.get('isArray'):
            et = re.sub(r'\s*\*$', '', t)
            sz = c[0]
            return 'CArr::<%s>::alloc(%s)' % (self.T.rust(et), self.as_u64(sz))
        cn = re.sub(r'\s*\*$', '', t).split('::')[-1]
        if cn in self.g.spec.heapalloc and len(c) == 1 and c[0]['kind'] == 'CXXConstructExpr':
            r = self.g.resolve_ctor(cn, c[0].get('ctorType', {}).get('qualType', ''))
            if r is None: raise Unsupported('new %s: constructor without contract' % cn)
            v = self.fresh('new')
            ob = self.deref_lv(LV(v, None, None, None, 'Ptr', v))
            return '{ let %s = h.alloc_%s(); %s; %s }' % (v, cn, self.emit_call(r, ob, [a for a in kids(c[0]) if a['kind'] != 'CXXDefaultArgExpr']), v)
        if len(c) == 1 and self.T_opt(re.sub(r'\s*\*$', '', t)) in self.UCONT + ('Str',): return self.ex(c[0])
        raise Unsupported('new ' + t)
    def delete(self, n):
        l = self.lv(c0 := kids(n)[0])
        if l.rty == 'Ptr' and not n.get('isArray'):
            cn = re.sub(r'[\s*]+$', '', strip_cv(qt(c0))).split('::')[-1]
            if cn in self.g.spec.heapalloc: return '{ let x__ = %s; h.free_%s(x__) }' % (l.read, cn)
        if l.rty == 'UPtr' and not n.get('isArray') and l.place[0].mut is not None: return '%s.free_%s()' % (l.place[0].place, l.place[1])
        if l.rty.startswith('CArr<') and n.get('isArray'):
            if isinstance(l.place, str): return '%s.free()' % l.place
            if isinstance(l.place, tuple) and l.place[0] == 'elem': return '%s.free2(%s)' % (l.place[1].place, l.place[2])
        raise Unsupported('delete')
    # -- calls
    def args_for(self, decl_params, args):
        out = []
        for i, a in enumerate(args):
            pt = decl_params[i] if i < len(decl_params) else None
            out.append(self.arg(pt, a))
        return out
    OUTPTR = 'outptr:'
    def arg(self, pt, a):
        if pt is None: return self.ex(a)
        p = pt.strip()
        if p.startswith(self.OUTPTR):      # T* that the callee's contract takes as the address of one variable
            s = self.skip(a)
            l = self.lv(kids(s)[0] if s['kind'] == 'UnaryOperator' and s['opcode'] == '&' else s)
            if l.mut is None: raise Unsupported('address of a complex lvalue')
            return l.mut
        if self.T.heapref(p):
            s = self.skip(a)
            if s['kind'] == 'UnaryOperator' and s['opcode'] == '*' and self.skip(kids(s)[0])['kind'] != 'CXXThisExpr': return self.ex(kids(s)[0])
            l = self.lv(a)
            if l.rty != 'HeapObj': raise Unsupported('reference to a heap object')
            return l.place[1].read
        isref = p.endswith('&') or p.endswith('&&')
        base = p.rstrip('& ').strip()
        rt = self.T.rust(p)
        const = base.startswith('const ') or base.endswith(' const')
        if p.endswith('&&') and rt in self.g.spec.rvref:
            s = self.skip(a)
            while s['kind'] == 'CallExpr' and self.callee_decl(s).get('name') in ('move','forward'): s = self.skip(kids(s)[1])
            if s['kind'] in ('DeclRefExpr','MemberExpr') or s['kind'] == 'UnaryOperator':
                l = self.lv(s)
                if l.mut is None: raise Unsupported('move from a constant')
                return l.mut
            return '&mut ' + self.paren(self.ex(a))
        if isref and not const and a['kind'] == 'UnaryOperator' and a['opcode'] in ('++','--') and not a.get('isPostfix') and self.argpre is not None:
            self.argpre.append(self.stmt_expr(a)); a = kids(a)[0]
        if isref and not p.endswith('&&'):
            if const:
                if is_copy(rt): return self.ex(a)
                return self.borrow(a)
            l = self.lv(a)
            if l.mut is None: raise Unsupported('mutable reference to complex lvalue')
            return l.mut
        if rt.startswith('CArr<') and '*' in base:
            l = self.lv(a)
            return l.ref if const else (l.mut or '')
        if is_copy(rt): return self.ex(a)
        return self.value_of(a)
    def emit_call(self, r, obj, args):
        """call of translated function r (a FnSpec-bound node)"""
        name, node, cls, fs = r
        if name is None: return self.inline_call(r, obj, args)
        ps = params_of(node)
        pts = [qt(p) for p in ps]
        sv_ap, self.argpre = self.argpre, []
        al = self.args_for([self.OUTPTR + t if fs.opts.get('outptr') and t.strip().endswith('*') and not t.startswith('const ') else t for t in pts], args)
        ap = self.argpre; self.argpre = sv_ap
        for i, a in enumerate(al):
            if a.startswith('&mut (') and not re.match(r'^&mut \(\*\w+\)[\w.]*$', a):
                v = self.fresh('arg'); ap.append('let mut %s = %s;' % (v, a[5:])); al[i] = '&mut ' + v
        if ap: return '{ %s %s }' % (' '.join(ap), self.emit_call2(r, obj, args, al))
        return self.emit_call2(r, obj, args, al)
    argpre = None
    def emit_call2(self, r, obj, args, al):
        name, node, cls, fs = r
        ps = params_of(node)
        # default arguments
        for k, p in enumerate(ps):
            if k < len(args): continue
            init = kids(p)
            if not init:
                d = [n for _, n, _ in self.g.tu.funcs if n['id'] == node.get('previousDecl')]
                if d: init = kids(params_of(d[0])[k])
            if not init: raise Unsupported('missing default argument')
            al.append(self.ex(init[0]))
        first = []
        if self.g.needs_heap(fs): first.append('h')
        if obj is not None:
            if obj.rty == 'HeapObj': first.append(obj.place[1].read)
            else:
                first.append(obj.ref if self.g.this_const(node, fs) else obj.mut)
            if first[-1] is None: raise Unsupported('call on complex object')
            if not fs.sec.get('exit_ok', '').strip() and obj.rty != 'HeapObj' and not self.g.this_const(node, fs):
                # arguments are computed before the object is borrowed mutably
                pre = []
                for i, a in enumerate(al):
                    if re.match(r'^(&?[\w.]+|-?\d+\w+|&mut [\w.]+)$', a) : continue
                    m = re.match(r'^&\(\*(\w+)\)((?:\.\w+)*)$', a)
                    if m and not re.search(r'\b%s\b' % m.group(1), str(obj.place)): continue
                    v = self.fresh('arg'); isr = a.startswith('&') and not a.startswith('&mut ')
                    if m: pre.append('let %s = %s.dup();' % (v, a[1:])); al[i] = '&' + v; continue
                    pre.append('let %s = %s;' % (v, a[1:] if isr else a)); al[i] = ('&' + v) if isr else v
                if pre:
                    self.note_call(fs.rust)
                    return '{ %s %s(%s) }' % (' '.join(pre), name, ', '.join(first + al))
        if self.g.needs_heap(fs):
            pre = []; allargs = first + al
            for i, a in enumerate(allargs):
                if a == 'h' or re.match(r'^(&?(mut )?[\w.]+|-?\d+\w+)$', a): continue
                v = self.fresh('arg'); pre.append('let %s = %s;' % (v, a)); allargs[i] = v
            if pre and not fs.sec.get('exit_ok', '').strip():
                self.note_call(fs.rust)
                return '{ %s %s(%s) }' % (' '.join(pre), name, ', '.join(allargs))
            if pre:
                self.note_call(fs.rust)
                nms = [rid(x) for x in (fs.params if fs.params is not None else [p.get('name') or '_p' for p in ps])]
                vals = allargs[len(allargs) - len(nms):] if nms else []
                gh = ''.join('let %s = %s; let %s_0 = %s; ' % (a, v, a, v) for a, v in zip(nms, vals))
                if obj is not None: gh = 'let this = %s; ' % re.sub(r'^&(mut )?', '', allargs[1]) + gh
                x = self.fresh('mayexit')
                return '{ %s let ghost %s: bool = { %s (%s) }; proof { assert(%s ==> (%s)); } %s(%s) }' % (' '.join(pre), x, gh, fs.sec['exit_ok'].strip(), x, self.exit_ok(), name, ', '.join(allargs))
        self.note_call(fs.rust)
        if fs.sec.get('exit_ok', '').strip():
            # the callee may end in the error exit: only where this function may
            pre = []; ghost = []; names = [rid(x) for x in (fs.params if fs.params is not None else [p.get('name') or '_p' for p in ps])]
            if obj is not None and isinstance(obj.place, str):
                ob = obj.place
                if not re.match(r'^\(?\*?[\w.]+\)?$', ob):
                    ob = self.fresh('obj'); pre.append('let mut %s = %s;' % (ob, obj.place)); first[-1] = ('&' if self.g.this_const(node, fs) else '&mut ') + ob
                ghost.append('let this = %s;' % ob)
            for i, (nm, a) in enumerate(zip(names, al)):
                pt = qt(ps[i]).strip()
                if pt.endswith('&') and not pt.endswith('&&') and 'const' not in pt and not self.T.heapref(pt) and is_copy(self.T.rust(pt)):
                    v = a[5:] if a.startswith('&mut ') else '(*%s)' % a
                    ghost.append('let %s_0 = %s; let %s = %s;' % (nm, v, nm, v)); continue
                if a.startswith('&mut ') or re.match(r'^[a-z_]\w*$', a): v = a.replace('&mut ', '')
                else: v = self.fresh('arg'); pre.append('let %s = %s;' % (v, a)); al[i] = v
                ghost.append('let %s = %s; let %s_0 = %s;' % (nm, v, nm, v))
            x = self.fresh('mayexit')
            return '{ %s let ghost %s: bool = { %s (%s) }; proof { assert(%s ==> (%s)); } %s(%s) }' % (' '.join(pre), x, ' '.join(ghost), fs.sec['exit_ok'].strip(), x, self.exit_ok(), name, ', '.join(first + al))
        return '%s(%s)' % (name, ', '.join(first + al))
    def note_call(self, nm):
        self.callcount[nm] = self.callcount.get(nm, 0) + 1
        self.pending_calls.append((nm, self.callcount[nm]))
    pending_calls = []
    def inline_call(self, r, obj, args):
        name, node, cls, fs = r
        if self.inline_depth > 6: raise Unsupported('inlining too deep / recursive helper ' + node['name'])
        ps = params_of(node); pre = []; saved = dict(self.vars)
        for i, p in enumerate(ps):
            pt = qt(p).strip(); rt = self.T.rust(pt)
            isref = pt.endswith('&'); base = pt.rstrip('& ').strip()
            const = base.startswith('const ')
            a = args[i] if i < len(args) else kids(p)[0]
            if self.T.heapref(pt):
                v = self.local_name(p['name']); pre.append('let mut %s: Ptr = %s;' % (v, self.arg(pt, a)))
                self.vars[p['id']] = self.deref_lv(self.simple_lv(v, 'Ptr')); self.names[v] = 1
            elif (isref and not const) or (isref and not is_copy(rt)) or ('*' in base and rt.startswith('CArr<')):
                try:
                    fpre, l = self.frozen_lv(a)
                    if fpre: pre.append(fpre)
                except Unsupported:
                    v = self.local_name(p['name']); pre.append('let mut %s: %s = %s;' % (v, rt, self.ex(a)))
                    l = self.simple_lv(v, rt)
                self.vars[p['id']] = l
            else:
                v = self.local_name(p['name']); 
                pre.append('let mut %s: %s = %s;' % (v, rt, self.value_of(a) if not is_copy(rt) else self.ex(a)))
                self.vars[p['id']] = self.simple_lv(v, rt)
        sv_this, sv_ret = self.this_lv, self.ret_mode
        if obj is not None: self.this_lv = obj.place[1] if obj.rty == 'HeapObj' else obj
        rt = self.g.ret_type(node)
        self.inline_depth += 1
        try:
            stmts = kids(body_of(node))
            rv = self.fresh('ret')
            code = self.inline_body(stmts, rv, rt)
        finally:
            self.inline_depth -= 1; self.this_lv, self.ret_mode = sv_this, sv_ret
        self.vars = {**self.vars, **saved}
        if rt == '()': return '{ %s %s }' % (' '.join(pre), code)
        return '{ %s let %s: %s; %s %s }' % (' '.join(pre), rv, rt, code, rv)
    def inline_body(self, stmts, rv, rt):
        """structured return elimination for an inlined helper"""
        if not stmts:
            return '' if rt == '()' else 'cxx_unreachable();'
        s, rest = stmts[0], stmts[1:]
        if s['kind'] == 'ReturnStmt':
            c = kids(s)
            if not c: return ''
            return '%s = %s;' % (rv, self.value_of(c[0]))
        if s['kind'] == 'CompoundStmt':
            return self.inline_body(kids(s) + rest, rv, rt)
        if not contains(s, 'ReturnStmt'):
            return self.st(s) + ' ' + self.inline_body(rest, rv, rt)
        if s['kind'] == 'IfStmt':
            c = kids(s); cond = self.cond(c[0])
            sv = dict(self.vars)
            th = self.inline_body([c[1]] + rest, rv, rt); self.vars = dict(sv)
            el = self.inline_body(([c[2]] if len(c) > 2 else []) + rest, rv, rt); self.vars = sv
            return 'if %s { %s } else { %s }' % (cond, th, el)
        if s['kind'] == 'SwitchStmt':
            raise Unsupported('return inside switch of inlined helper')
        raise Unsupported('return inside %s of an inlined helper' % s['kind'])
    def call(self, n):
        c = kids(n); d = self.callee_decl(n); name = d.get('name', '')
        args = [a for a in c[1:] if a['kind'] != 'CXXDefaultArgExpr']
        if name == 'exit':
            return '{ let ghost exit_ok__: bool = (%s); cxx_exit(Ghost(exit_ok__)) }' % self.exit_ok()
        if name in ('abort','__assert_fail'):
            return 'cxx_unreachable()'
        if name == '__builtin_expect': return self.ex(args[0])
        if d.get('kind') == 'ParmVarDecl' and d['id'] in self.vars and len(args) == 1 and self.vars[d['id']].rty.startswith('CFn<'):
            return '%s.call(%s)' % (self.vars[d['id']].place, self.ex(args[0]))
        f0 = self.skip(c[0])
        if f0['kind'] == 'MemberExpr' and self.T_safe(f0) in ('MC','MI') and len(args) == 1:      # a pure function held by the object
            return '%s.call(%s)' % (self.lv(f0).place, self.ex(args[0]))
        r = self.g.resolve(d)
        if r is not None: return self.emit_call(r, None, args)
        if name in ('max','min') and len(args) == 2:
            t = self.ty(n)
            return '%s_%s(%s, %s)' % (name, tyname(t), self.ex(args[0]), self.ex(args[1]))
        if name == 'abs' and len(args) == 1: return 'abs_%s(%s)' % (tyname(self.ty(n)), self.ex(args[0]))
        if name in ('move','forward'): return self.value_of(args[0])
        if name in ('isalnum','isdigit','isspace','isalpha','isxdigit','toupper','tolower','islower','isupper'):
            return 'c_%s(%s)' % (name, self.ex(args[0]))
        if name == 'nextafter' and len(args) == 2 and self.ty(n) == 'Num': return 'num_nextafter(%s)' % ', '.join(self.cast(self.ex(a), self.ty(a), 'Num') for a in args)
        if name == 'time' and len(args) == 1: return 'c_time()'
        if name in ('fabs','sqrt','cos','sin','pow','exp','log','floor'):
            if self.ty(n) == 'Num':
                if name == 'pow' and len(args) == 2:
                    s1 = args[1]
                    while s1['kind'] == 'ImplicitCastExpr' and s1.get('castKind') in ('LValueToRValue','NoOp','IntegralToFloating'): s1 = kids(s1)[0]
                    b1 = self.cast(self.ex(args[0]), self.ty(args[0]), 'Num')
                    if self.ty(s1) == 'i32': return 'num_powi(%s, %s)' % (b1, self.ex(s1))
                    return 'num_pow(%s, %s)' % (b1, self.cast(self.ex(args[1]), self.ty(args[1]), 'Num'))
                return 'num_%s(%s)' % (name, self.cast(self.ex(args[0]), self.ty(args[0]), 'Num'))
            return 'dbl_%s(%s)' % (name, ', '.join(self.ex(a) for a in args))
        if name == 'swap' and len(args) == 2:
            la, lb = self.lv(args[0]), self.lv(args[1])
            if la.write is None or lb.write is None: raise Unsupported('swap')
            v = self.fresh('sw'); w = self.fresh('sw')
            return '{ let %s = %s; let %s = %s; %s %s }' % (v, la.read, w, lb.read, la.write(w), lb.write(v))
        if name in ('advance','next','prev') and args and self.T_safe(args[0]) == 'It':
            l0 = self.ex(args[0]); k0 = self.cast(self.ex(args[1]), self.ty(args[1]), 'i64') if len(args) > 1 else '1i64'
            e = 'it_adv(%s, %s%s, %s.size())' % (l0, '-' if name == 'prev' else '', self.paren(k0), self.cont_of(args[0]).place)
            return '{ %s }' % self.lv(args[0]).write(e) if name == 'advance' else e
        if name in ('memset','memcpy'): return self.memop(name, args)
        if name == 'to_string' and len(args) == 1: return 'to_string_%s(%s)' % (tyname(self.ty(args[0])), self.ex(args[0]))
        if name == 'stoi': return 'str_stoi(%s)' % self.borrow(args[0])
        x = self.g.external_call(name, self, args)
        if x is not None: return x
        # std::numeric_limits<T>::max() / min() (no random engine has signed limits)
        if name in ('max','min') and not args and self.ty(n) in ('i32','i64','i16','i8'): return '%s::%s' % (self.ty(n), name.upper())
        if name in ('max','min') and not args and self.ty(n) == 'u64' and d.get('type', {}).get('qualType', '').startswith('unsigned long ('): return 'u64::%s' % name.upper()
        raise Unsupported('call of %s' % name)
    def bad(self, m): raise Unsupported(m)
    def memop(self, name, args):
        # memset(arr, 0, n*sizeof(T)) / memcpy(dst, src, n*sizeof(T)) on whole elements
        def arr(a):
            s = self.skip(a)
            while s['kind'] in ('ImplicitCastExpr',) : s = self.skip(kids(s)[0])
            return self.lv(s)
        def szok(z):
            at = z.get('argType', {}); at = at.get('desugaredQualType') or at.get('qualType') or (qt(kids(z)[0]) if kids(z) else '')
            if z.get('name') != 'sizeof' or self.T.rust(at) != self.elem(d.rty): raise Unsupported('byte count of ' + name)
        def count(a):
            s = self.skip(a)
            while s['kind'] == 'ImplicitCastExpr': s = self.skip(kids(s)[0])
            if s['kind'] == 'BinaryOperator' and s['opcode'] == '*':
                x, y = kids(s)
                yy = self.skip(y); xx = self.skip(x)
                if yy['kind'] == 'UnaryExprOrTypeTraitExpr': szok(yy); return self.as_u64(x)
                if xx['kind'] == 'UnaryExprOrTypeTraitExpr': szok(xx); return self.as_u64(y)
            if s['kind'] == 'UnaryExprOrTypeTraitExpr': return '1u64' if False else self.sizeof_arr(s)
            raise Unsupported('byte count of ' + name)
        d = arr(args[0])
        e = self.elem(d.rty)
        if name == 'memset':
            if self.skip(args[1])['kind'] != 'IntegerLiteral' or self.skip(args[1])['value'] != '0': raise Unsupported('memset value')
            if isinstance(d.place, tuple) and d.place[0] == 'elem':
                return 'memzero2_%s(&mut %s, %s, %s)' % (tyname(e), d.place[1].place, d.place[2], count(args[2]))
            return 'memzero_%s(%s, %s)' % (tyname(e), d.mut, count(args[2]))
        s = arr(args[1])
        return 'memcpy_%s(%s, %s, %s)' % (tyname(e), d.mut, s.ref, count(args[2]))
    def sizeof_arr(self, s):
        c = kids(s)
        if c:
            t = qt(c[0]); m = re.match(r'^.*\[(\d+)\]$', t)
            if m: return m.group(1) + 'u64'
        raise Unsupported('sizeof')
    def exit_ok(self):
        e = self.spec.sec.get('exit_ok', '').strip()
        return e if e else 'false'
    def membercall(self, n):
        c = kids(n); m = self.member_callee(n); name = m['name']; args = [a for a in c[1:] if a['kind'] != 'CXXDefaultArgExpr']
        did = m.get('referencedMemberDecl')
        r = self.g.resolve({'id': did, 'name': name})
        obj = self.member_base(m)
        if r is not None: return self.emit_call(r, obj, args)
        t = obj.rty
        if t in self.UCONT:
            if name in ('size','empty'): return '%s.%s()' % (obj.place, name)
            if name in ('end','cend'): return '%s.size()' % obj.place
            if name in ('begin','cbegin'): return '0u64'
            if name == 'find': return '%s.find(%s)' % (obj.place, self.borrow(args[0]))
            if name in ('operator[]','at'): return self.lv_read(n)
            if obj.mut is None: raise Unsupported('%s through a constant' % name)
            if name == 'resize' and len(args) == 1: return 'jlist_resize(%s, %s)' % (obj.mut, self.as_u64(args[0]))
            if name == 'clear': return '%s.clear()' % obj.mut
            if name in ('emplace_back','push_back') and t == 'JList':
                a0 = args[0]; ta = self.T_safe(a0)
                if ta == 'Json':
                    s0 = self.skip(a0)
                    v = self.construct_from('json_copy', a0) if s0['kind'] in ('DeclRefExpr','MemberExpr') else self.ex(a0)
                else:
                    x = self.g.spec.externs.get('emplace_' + tyname(ta or '?'))
                    if not x: raise Unsupported('emplace_back of ' + str(ta))
                    v = '%s(%s)' % (x, self.ex(a0) if is_copy(ta) else self.value_of(a0))
                return '{ let x__ = %s; %s.push_back(x__) }' % (v, obj.mut)
            raise Unsupported('method %s on %s' % (name, t))
        if name == 'operator bool' and t == 'bool': return obj.read   # vector<bool>::reference
        if name.startswith('operator '):   # conversion
            x = self.g.external_call('conv_' + tyname(self.ty(n)), self, [kids(m)[0]])
            if x: return x
        if isinstance(obj.place, tuple) and obj.place[0] == 'heapfield':
            _, f, p = obj.place
            if t == 'Mt': return '{ let y__ = %s; let x__ = %s; h.%s_%s(x__, y__) }' % (self.ex(args[0]), p, f, name) if name == 'seed' and len(args) == 1 else self.bad('method %s of the engine' % name)
            return 'h.%s_%s(%s)' % (f, name, ', '.join([p] + [self.value_of(a) for a in args]))
        if isinstance(obj.place, tuple) and obj.place[0] == 'elem':
            if name == 'reset' and t.startswith('CArr<'):
                b = obj.place[1]
                return '%s.put(%s, %s)' % (b.place, obj.place[2], self.ex(args[0]))
            base = '%s.at_ref(%s)' % (obj.place[1].place, obj.place[2])
            if name in ('size','empty','length','at','back','front'):
                return '%s.%s(%s)' % (base, name, ', '.join(self.ex(a) for a in args))
            if name == 'push_back':
                return '%s.push_back2(%s, %s)' % (obj.place[1].place, obj.place[2], self.value_of(args[0]))
            raise Unsupported('method %s on element' % name)
        if t.startswith(self.CONT) and isinstance(obj.place, str):
            if name in ('begin','cbegin'): return '0u64'
            if name in ('end','cend'): return '%s.size()' % obj.place
            if name in ('front','back','top'): return self.lv_read(n)
            if name in ('insert','erase') and args and self.T_safe(args[0]) == 'It':
                vs = [self.ex(args[0])] + [self.value_of(a) for a in args[1:]]
                return '{ let i__ = %s; %s.%s_at(%s) }' % (vs[0], obj.place, name, ', '.join(['i__'] + vs[1:]))
            if name == 'merge': return '%s.merge(%s)' % (obj.place, self.lv(args[0]).mut)
            if name == 'resize' and len(args) == 1 and t.startswith('CVec<'): return '%s.resize0(%s)' % (obj.place, self.as_u64(args[0]))
            if name == 'resize' and len(args) == 2: return '%s.resize(%s, %s)' % (obj.place, self.as_u64(args[0]), self.value_of(args[1]))
            if name == 'at' and t == 'CMap': return self.lv_read(n)
        if t == 'Str' and name == 'substr' and len(args) == 1:
            return '%s.substr(%s, u64::MAX)' % (obj.place, self.ex(args[0]))
        if t == 'Str' and name == 'size': pass
        if t.startswith('CArr<') and name == 'reset':
            return '%s = %s' % (obj.place, self.ex(args[0]))
        if not isinstance(obj.place, str): raise Unsupported('method %s' % name)
        al = []
        for a in args:
            ta = self.T_safe(a)
            al.append(self.ex(a) if ta is None or is_copy(ta) or not self.g.by_ref_method(t, name) else self.borrow(a)) if ta and is_copy(ta) else al.append(self.borrow(a) if self.g.by_ref_method(t, name) else self.value_of(a))
        return '%s.%s(%s)' % (obj.place, rid(name), ', '.join(al))
    def opcall(self, n):
        c = kids(n); op = self.opname(n); args = c[1:]
        if op == '=' and self.g.spec.unions and len(args) == 2 and self.T_safe(args[0]) in self.g.spec.unions.values() and self.T_safe(args[1]) == self.T_safe(args[0]):
            return '{ let x__ = %s; %s.assign(x__) }' % (self.union_copy(args[1]), self.lv(args[0]).place)
        d = self.callee_decl(n)
        r = self.g.resolve(d)
        if op == '[]' and r is not None and r[0] is None:
            try: return self.lv_read(n)
            except Unsupported: pass
        if r is not None:
            node = r[1]
            if node['kind'] in ('CXXMethodDecl',) :
                return self.emit_call(r, self.lv_or_tmp(args[0]), args[1:])
            return self.emit_call(r, None, args)
        ta = self.T_safe(args[0]); tb = self.T_safe(args[1]) if len(args) > 1 else None
        if op == '[]': return self.lv_read(n)
        if op == '()' and ta == 'Mt' and len(args) == 1:
            l = self.lv(args[0])
            if isinstance(l.place, tuple) and l.place[0] == 'heapfield': return '{ let x__ = %s; h.%s_next(x__) }' % (l.place[2], l.place[1])
        if op == '()' and ta == 'Mt' and len(args) == 1: return '%s.next()' % self.lv(args[0]).place
        if ta == 'It' and op in ('==','!=') and tb == 'It': return '(%s %s %s)' % (self.ex(args[0]), op, self.ex(args[1]))
        if ta == 'It' and op in ('++','--'):
            l = self.lv(args[0]); c0 = self.cont_of(args[0]); nx = 'it_%s(%s, %s.size())' % ('inc' if op == '++' else 'dec', l.read, c0.place)
            if len(args) > 1: return '{ let o__ = %s; %s o__ }' % (l.read, l.write(nx))
            return '{ %s %s }' % (l.write(nx), l.read)
        if ta == 'It' and op in ('*','->'): return self.lv_read(n)
        if ta == 'It' and op in ('+','-') and tb in INTS: return 'it_adv(%s, %s(%s as i64), %s.size())' % (self.ex(args[0]), '-' if op == '-' else '', self.ex(args[1]), self.cont_of(args[0]).place)
        if ta and tb == ta and ta.startswith(self.CONT) and op in ('==','!=','<','>','<=','>='):
            return '%s.%s(%s)' % (self.paren(self.lv_or_tmp(args[0]).place), {'==':'eq','!=':'ne','<':'lt','>':'gt','<=':'le','>=':'ge'}[op], self.borrow(args[1]))
        if op == '=' and ta and tb and ta.startswith(self.CONT) and 'initializer_list' in qt(args[1]):
            return '%s.assign_init(%s)' % (self.lv(args[0]).place, self.borrow(args[1]))
        if op == '<<' and ta == 'Oss':
            return self.stream(n)
        if op == '>>' and ta == 'Iss': return '%s.get_%s(%s)' % (self.lv(args[0]).place, tyname(tb), self.lv(args[1]).mut)
        if op == '<<' :
            raise Unsupported('stream output to ' + str(qt(args[0])))
        if op == '=':
            l = self.lv(args[0])
            if l.write is None: raise Unsupported('operator=')
            s1 = self.skip(args[1])
            if s1['kind'] == 'CXXOperatorCallExpr' and self.opname(s1) == '=' and self.g.resolve(self.callee_decl(s1)) is None and not side_effects(kids(s1)[1]):
                return '{ %s; %s }' % (self.opcall(s1), l.write(self.lv(kids(s1)[1]).read))   # a = b = v
            if l.rty == 'Str' and s1['kind'] == 'StringLiteral': return '{ %s }' % l.write('str_lit(%s)' % self.strlit(s1))
            return '{ %s }' % l.write(self.value_of(args[1]))
        if op == '+=' and ta == 'Str':
            l = self.lv(args[0]); pl = l.place
            s1 = self.skip(args[1])
            if s1['kind'] == 'StringLiteral': return '%s.append(&str_lit(%s))' % (pl, self.strlit(s1))
            if tb == 'i8': return '%s.push_back(%s)' % (pl, self.ex(args[1]))
            if tb == 'Str': return '{ let a__ = %s; %s.append(&a__) }' % (self.value_of(args[1]), pl)
        if op == '+' and (ta == 'Str' or tb == 'Str'):
            def s(a, t):
                x = self.skip(a)
                if x['kind'] == 'StringLiteral': return '&str_lit(%s)' % self.strlit(x)
                if t == 'Str': return self.borrow(a)
                if t == 'i8': return '&Str::fill(1, %s)' % self.ex(a)
                raise Unsupported('string +')
            return 'str_cat(%s, %s)' % (s(args[0], ta), s(args[1], tb))
        if op in ('==','!=') and ta == 'Str':
            x = self.skip(args[1])
            rhs = '&str_lit(%s)' % self.strlit(x) if x['kind'] == 'StringLiteral' else self.borrow(args[1])
            e = '%s.eq(%s)' % (self.paren(self.lv_or_tmp(args[0]).place), rhs)
            return e if op == '==' else '!' + e
        nm = {'+':'add','-':'sub','*':'mul','/':'div','+=':'addeq','-=':'subeq','*=':'muleq','/=':'diveq','==':'eq','!=':'ne','<':'lt','>':'gt','<=':'le','>=':'ge','()':'call','++':'inc','--':'dec','%':'rem'}.get(op)
        if nm and ta in self.g.optypes:
            if op in ('+=','-=','*=','/='):
                l = self.lv(args[0])
                return '{ %s }' % l.write('%s_%s(%s, %s)' % (ta, nm[:-2], l.read, self.value_of(args[1])))
            return '%s_%s(%s)' % (ta, nm, ', '.join(self.value_of(a) for a in args))
        if nm and ta:
            x = self.g.external_call('%s_%s' % (tyname(ta), nm), self, args)
            if x: return x
        raise Unsupported('operator %s on %s' % (op, qt(args[0])))
    def stream(self, n):
        """os << a << b ...: sequence of puts on the stream lvalue"""
        out = []
        def go(x):
            x = self.skip(x)
            if x['kind'] == 'CXXOperatorCallExpr' and self.opname(x) == '<<':
                cc = kids(x); b = go(cc[1]); a = cc[2]; s = self.skip(a)
                while s['kind'] == 'CXXConstructExpr' and len(kids(s)) == 1 and '_Set' in qt(s): s = self.skip(kids(s)[0])
                if s['kind'] == 'DeclRefExpr' and s['referencedDecl']['kind'] == 'FunctionDecl':
                    out.append('%s.manip_%s();' % (b, s['referencedDecl']['name']))
                elif s['kind'] == 'StringLiteral': out.append('%s.put_Str(&str_lit(%s));' % (b, self.strlit(s)))
                elif s['kind'] == 'CallExpr' and self.callee_decl(s).get('name') in ('setw','setfill'):
                    out.append('%s.manip_%s(%s);' % (b, self.callee_decl(s)['name'], self.ex(kids(s)[1])))
                else:
                    t = self.ty(a)
                    out.append('%s.put_%s(%s);' % (b, tyname(t), self.ex(a) if is_copy(t) else self.borrow(a)))
                return b
            if x['kind'] == 'CXXMemberCallExpr':
                m = self.member_callee(x)
                if m['name'] == 'operator<<':
                    b = go(kids(m)[0]); a = kids(x)[1]; s = self.skip(a)
                    out.append('%s.manip_%s();' % (b, s['referencedDecl']['name'])); return b
            l = self.lv(x)
            return l.place
        go(n)
        return '{ %s }' % ' '.join(out)
    def stream_root(self, x):
        x = self.skip(x)
        if x['kind'] == 'CXXOperatorCallExpr' and self.opname(x) == '<<': return self.stream_root(kids(x)[1])
        if x['kind'] == 'CXXMemberCallExpr' and self.member_callee(x)['name'] == 'operator<<': return self.stream_root(kids(self.member_callee(x))[0])
        return x
    # -- statements
    def stmt_expr(self, n):
        """an expression evaluated for its side effects"""
        n0 = n
        while n['kind'] in ('ExprWithCleanups','ParenExpr'): n = kids(n)[0]
        k = n['kind']
        if self.is_cerr(n): return ''
        if k == 'BinaryOperator' and n['opcode'] == '=':
            return self.assign(*kids(n))[1]
        if k == 'BinaryOperator' and n['opcode'] == ',':
            return self.stmt_expr(kids(n)[0]) + ' ' + self.stmt_expr(kids(n)[1])
        if k == 'CompoundAssignOperator': return self.compound(n, want=False)
        if k == 'UnaryOperator' and n['opcode'] in ('++','--'):
            fpre, l = self.once_lv(kids(n)[0]); t = l.rty
            if t == 'It' and self.T_safe(kids(n)[0]) == 'It': return l.write('it_%s(%s, %s.size())' % ('inc' if n['opcode'] == '++' else 'dec', l.read, self.cont_of(kids(n)[0]).place))
            if l.write is None or t not in INTS: raise Unsupported('++ on ' + t)
            if t in ('i8','u8','i16','u16'): raise Unsupported('++ on small int')
            w = l.write(self.arith(n['opcode'][0], l.read, '1' + t, t))
            return '{ %s %s }' % (fpre, w) if fpre else w
        if k in ('CStyleCastExpr','CXXStaticCastExpr') and n.get('castKind') == 'ToVoid':
            s = self.skip(kids(n)[0])
            if s['kind'] in ('IntegerLiteral','DeclRefExpr'): return ''
        if k in ('IntegerLiteral','CXXBoolLiteralExpr'): return ''
        if k == 'ConditionalOperator' and contains(n, '__assert_fail', name=True):
            c = kids(n)
            return 'if !(%s) { cxx_unreachable(); }' % self.cond(c[0])
        e = self.ex(n)
        return e + ';' 
    def is_cerr(self, n):
        found = []
        def go(x):
            if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('name') == 'cerr': found.append(1)
            for y in kids(x): go(y)
        if n['kind'] in ('CXXMemberCallExpr','CXXOperatorCallExpr'): go(n)
        return bool(found)
    def st(self, n):
        k = n['kind']; c = kids(n)
        if k == 'CompoundStmt':
            saved = dict(self.vars)
            r = '{ %s }' % '\n'.join(self.st(x) for x in c)
            self.vars = saved
            return r
        if k == 'DeclStmt':
            return '\n'.join(self.decl(d) for d in c)
        if k == 'NullStmt': return ''
        if k == 'ReturnStmt': return self.ret(c[0] if c else None)
        if k == 'IfStmt': return self.ifst(n)
        if k in ('WhileStmt','ForStmt','DoStmt','CXXForRangeStmt'): return self.loop(n)
        if k == 'BreakStmt':
            if self.loop_stack and self.loop_stack[-1] == 'switch': raise Unsupported('break inside switch')
            return 'break;'
        if k == 'ContinueStmt':
            return self.continue_()
        if k == 'SwitchStmt': return self.switch(n)
        if k == 'AttributedStmt': return self.st(c[-1])
        if k == 'CXXTryStmt': return self.st(c[0])    # streams with their default exception mask do not throw; handlers are dropped
        self.pending_calls = []
        code = self.stmt_expr(n)
        hk = self.call_hooks()
        return hk.pre + code + hk
    def call_hooks(self):
        out = Hook(''); out.pre = ''
        for key in self.pending_calls:
            for kk in (key, (key[0], 0)):
                if kk in self.spec.calls and self.inline_depth == 0:
                    self.used_calls.add(kk)
                    pr = out.pre; out = Hook(out + '\n proof { %s }' % self.spec.calls[kk]); out.pre = pr
                if kk + ('before',) in self.spec.calls and self.inline_depth == 0:
                    self.used_calls.add(kk + ('before',))
                    out.pre += 'proof { %s }\n' % self.spec.calls[kk + ('before',)]
        self.pending_calls = []
        return out
    def decl(self, d):
        if d['kind'] != 'VarDecl': 
            if d['kind'] in ('TypedefDecl','TypeAliasDecl','UsingDecl','UsingDirectiveDecl','StaticAssertDecl'): return ''
            raise Unsupported('local declaration ' + d['kind'])
        t = qt(d); init = [x for x in kids(d) if not x['kind'].endswith('Comment') and not x['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static': raise Unsupported('static local')
        if t.strip().endswith('&') :
            s0 = self.skip(init[0])
            if s0['kind'] == 'UnaryOperator' and s0['opcode'] == '*' and self.skip(kids(s0)[0])['kind'] == 'CXXNewExpr' and not self.skip(kids(s0)[0]).get('isArray') and self.g.is_plain_struct(self.T_opt(t)):
                # T& x = *(new T(...)): a fresh object (never freed; leaks are not modelled)
                self.pending_calls = []
                rt = self.T.rust(t); name = self.local_name(d['name']); e = self.ex(kids(self.skip(kids(s0)[0]))[0])
                self.vars[d['id']] = self.simple_lv(name, rt); self.fresh_objs.add(d['id'])
                self.local_list.append((d['name'], rt))
                hk = self.call_hooks(); return hk.pre + 'let mut %s: %s = %s;' % (name, rt, e) + hk
            try:
                fpre, l = self.frozen_lv(init[0])
                if l.place is None and l.write is None: raise Unsupported('reference to element')
                self.vars[d['id']] = l; return fpre
            except Unsupported:
                # const reference to a temporary / element: by value (no later mutation through it)
                if self.is_fresh_call(init[0]):
                    self.pending_calls = []
                    rt = self.T.rust(t); name = self.local_name(d['name']); e = self.ex(init[0])
                    self.vars[d['id']] = self.simple_lv(name, rt); self.fresh_objs.add(d['id'])
                    self.local_list.append((d['name'], rt))
                    hk = self.call_hooks(); return hk.pre + 'let mut %s: %s = %s;' % (name, rt, e) + hk
                if 'const ' not in t: raise
                rt = self.T.rust(t); name = self.local_name(d['name'])
                code = 'let %s: %s = %s;' % (name, rt, self.value_of(init[0]))
                self.vars[d['id']] = self.simple_lv(name, rt)
                return code
        if t.strip().endswith('*') and init and self.skip(init[0])['kind'] == 'CXXNewExpr' and not self.skip(init[0]).get('isArray'):
            st = self.T_opt(re.sub(r'\s*\*\s*(const)?$', '', t))
            if self.g.is_plain_struct(st):
                self.pending_calls = []
                name = self.local_name(d['name']); e = self.ex(kids(self.skip(init[0]))[0])
                self.vars[d['id']] = self.simple_lv(name, st); self.fresh_objs.add(d['id'])
                self.local_list.append((d['name'], st))
                hk = self.call_hooks(); return hk.pre + 'let mut %s: %s = %s;' % (name, st, e) + hk
        rt = self.T.rust(t)
        self.pending_calls = []
        if rt in ('It','(It, It)') and init: self.itcont[d['id']] = self.cont_of(init[0])
        if init:
            e = self.init_expr(init[0], rt)
        else:
            m = re.match(r'^(.*)\[(\d+)\]$', t)
            if m: e = 'CArr::<%s>::alloc(%s)' % (self.T.rust(m.group(1)), self.g.arrlen(m.group(2)))
            else: e = 'undef::<%s>()' % rt
        name = self.local_name(d['name'])
        self.vars[d['id']] = self.simple_lv(name, rt)
        self.local_list.append((d['name'], rt))
        hk = self.call_hooks(); code = hk.pre + 'let mut %s: %s = %s;' % (name, rt, e) + hk
        if self.inline_depth == 0 and name in self.spec.after_decl:
            self.used_decls.add(name); code += '\n' + self.spec.after_decl[name]
        return code
    def T_opt(self, t):
        try: return self.T.rust(t)
        except Unsupported: return None
    def is_fresh_call(self, n):
        # call of a function that returns a reference to a new object (@opt freshref)
        s = self.skip(n)
        if s['kind'] != 'CallExpr': return False
        r = self.g.resolve(self.callee_decl(s))
        return r is not None and bool(r[3].opts.get('freshref'))
    def init_expr(self, n, rt):
        s = self.skip(n)
        if s['kind'] == 'StringLiteral' and rt == 'Str': return 'str_lit(%s)' % self.strlit(s)
        if is_copy(rt): return self.ex(n)
        return self.value_of(n)
    def ret(self, e):
        if self.inline_depth > 0: raise Unsupported('return in nested position of inlined helper')
        hook = self.spec.sec.get('ret', '')
        post = self.g.ret_epilogue(self) + self.g.vacpoint(self, 'return')
        if e is None:
            return '%s %s return;' % (('proof { %s }' % hook) if hook else '', post)
        self.pending_calls = []
        if self.spec.opts.get('retunit'):
            # the function returns a reference to *this / its first parameter: the object itself is the result
            s = self.skip(e); code = ''
            if s['kind'] == 'CXXOperatorCallExpr' and self.opname(s) == '<<': code = self.stream(s); root = self.stream_root(s)
            elif s['kind'] in ('CXXMemberCallExpr','CXXOperatorCallExpr'):
                # the result of another function on *this that returns *this
                if s['kind'] == 'CXXMemberCallExpr': m = self.member_callee(s); r = self.g.resolve({'id': m.get('referencedMemberDecl'), 'name': m['name']}); ok = self.skip(kids(m)[0])['kind'] == 'CXXThisExpr'
                else: r = self.g.resolve(self.callee_decl(s)); b = self.skip(kids(s)[1]); ok = b['kind'] == 'UnaryOperator' and b['opcode'] == '*' and self.skip(kids(b)[0])['kind'] == 'CXXThisExpr'
                if not (ok and r is not None and r[0] is not None and r[3].opts.get('retunit')): raise Unsupported('returned reference is neither *this nor the first parameter')
                code = self.st(s)
                return '%s %s %s return;' % (code, ('proof { %s }' % hook) if hook else '', post)
            else: root = s
            ps = params_of(self.node)
            if not (root['kind'] == 'UnaryOperator' and root['opcode'] == '*' and self.skip(kids(root)[0])['kind'] == 'CXXThisExpr' or root['kind'] == 'DeclRefExpr' and ps and root['referencedDecl']['id'] == ps[0]['id']):
                raise Unsupported('returned reference is neither *this nor the first parameter')
            return '%s %s %s return;' % (code, ('proof { %s }' % hook) if hook else '', post)
        if self.spec.opts.get('freshref'):
            s = self.skip(e)
            if s['kind'] == 'UnaryOperator' and s['opcode'] == '*': s = self.skip(kids(s)[0])
            if not (self.is_fresh_call(s) or s['kind'] == 'DeclRefExpr' and s['referencedDecl']['id'] in self.fresh_objs): raise Unsupported('returned reference is not to a new object')
        if self.spec.opts.get('refidx'):
            # a reference into the container of *this: the position of the element it designates
            l = self.lv(e)
            if getattr(l, 'elem', None) is None: raise Unsupported('returned reference is not to an element')
            b, i = l.elem
            v = i if b.rty in ('CMap',) else '{ let i__ = %s; let _c = %s.%s(i__); i__ }' % (i, b.place, 'at' if b.rty.startswith(('CVec<','CArr<','CList<','CDeque<','CStack<','CQueue<')) else 'at_pos')
        elif self.spec.opts.get('retmut') or self.spec.opts.get('retcref'):
            l = self.lv(e); v = l.mut if self.spec.opts.get('retmut') else l.ref
            if v is None: raise Unsupported('returned reference')
            ch = self.call_hooks()
            return '%s %s return %s;' % (('proof { %s }' % hook) if hook else '', post, v)
        elif self.spec.opts.get('retref'):
            v = self.g.retref_expr(self, e)
        else:
            v = self.init_expr(e, self.rett) if self.rett != '()' else self.ex(e)
        ch = self.call_hooks()
        if hook or ch or post:
            return 'let ret_v: %s = %s; %s %s %s return ret_v;' % (self.rett, v, ch, ('proof { %s }' % hook) if hook else '', post)
        return 'return %s;' % v
    def ifst(self, n):
        c = kids(n)
        if n.get('hasInit') or n.get('hasVar'): raise Unsupported('if with init')
        idx = None
        if self.inline_depth == 0: self.ifn += 1; idx = self.ifn
        self.pending_calls = []
        cond = self.cond(c[0])
        pend = self.pending_calls
        def hook(w):
            if idx is not None and (idx, w) in self.spec.ifs:
                self.used_ifs.add((idx, w))
                return 'proof { %s }\n' % self.spec.ifs[(idx, w)]
            return ''
        saved = dict(self.vars)
        th = self.st(c[1]); self.vars = dict(saved)
        el = self.st(c[2]) if len(c) > 2 else ''
        self.vars = saved
        eh = hook('else'); tend = hook('then_end'); eend = hook('else_end')
        # (then hook is evaluated after translation so that numbering is by pre-order)
        out = 'if %s { %s %s %s }' % (cond, hook('then'), th, tend)
        if el or eh or eend: out += ' else { %s %s %s }' % (eh, el, eend)
        pre = ''
        return out
    def continue_(self):
        if not self.loop_stack: raise Unsupported('continue')
        f = self.loop_stack[-1]
        if f == 'switch': f = [x for x in self.loop_stack if x != 'switch'][-1]
        return f() + ' continue;'
    def loop(self, n):
        k = n['kind']; c = n.get('inner', [])
        self.loopn += 1; idx = self.loopn
        ls = self.spec.loops.get(idx)
        if ls is None:
            if self.g.require_loops: raise AttachError('%s: loop %d has no invariant' % (self.spec.rust, idx))
            ls = LoopSpec()
        self.used_loops.add(idx)
        s = ls.sec
        saved = dict(self.vars)
        init = ''; cond = None; step = ''; post_cond = None; bodyn = None; pre_body = ''
        if k == 'WhileStmt':
            cc = [x for x in c if x and 'kind' in x]
            if len(cc) != 2: raise Unsupported('while with declaration')
            cond = self.cond(cc[0]); bodyn = cc[1]
        elif k == 'ForStmt':
            i0, cv, cd, inc, bodyn = c
            if cv and 'kind' in cv: raise Unsupported('for condition variable')
            if i0 and 'kind' in i0: init = self.st(i0)
            cond = self.cond(cd) if cd and 'kind' in cd else 'true'
            step = inc if inc and 'kind' in inc else None
        elif k == 'DoStmt':
            bodyn, cd = kids(n); cond = None; post_cond = cd
        else:
            return self.range_for(n, idx, ls, saved)
        stepf = (lambda: self.stmt_expr(step)) if step else (lambda: '')
        endh = s.get('end', ''); bodyend = s.get('bodyend', '')
        def cont():
            r = ''
            if bodyend: r += ' proof { %s }' % bodyend
            if k == 'DoStmt':
                r += ' if !%s { break; }' % self.paren(self.cond(post_cond))
            r += ' ' + stepf()
            if endh: r += ' proof { %s }' % endh
            return r
        return self.finish_loop(idx, s, init, cond, bodyn, cont, saved, '')
    def finish_loop(self, idx, s, init, cond, bodyn, cont, saved, pre_body):
        self.loop_stack.append(cont)
        vars_before_body = dict(self.vars)
        if bodyn['kind'] == 'CompoundStmt':
            body = '\n'.join(self.st(x) for x in kids(bodyn))
        else: body = self.st(bodyn)
        self.vars = vars_before_body
        tail = cont()
        self.loop_stack.pop()
        inv = ''
        if s.get('invariant_except_break', '').strip(): inv += ' invariant_except_break ' + s['invariant_except_break'].strip().rstrip(',') + ','
        if s.get('invariant', '').strip(): inv += ' invariant ' + s['invariant'].strip().rstrip(',') + ','
        if s.get('loop_ensures', '').strip(): inv += ' ensures ' + s['loop_ensures'].strip().rstrip(',') + ','
        if s.get('decreases', '').strip(): inv += ' decreases ' + s['decreases'].strip().rstrip(',') + ','
        begin = self.g.vacpoint(self, 'loop %d' % idx) + s.get('begin', '')
        head = 'while %s' % cond if cond is not None and cond != 'true' else 'loop'
        code = '%s%s\n%s\n{ %s\n%s\n%s\n%s }' % ((s.get('before','') + '\n') if s.get('before') else '', head, inv, (pre_body + '\n') , begin, body, tail)
        code = code
        after = s.get('after', '')
        out = '{ %s\n%s\n%s }' % (init, code, after)
        self.vars = saved
        # a block would hide nothing: C++ loop variables are scoped to the loop as well
        if not init: out = '%s\n%s' % (code, after)
        return out
    def range_for(self, n, idx, ls, saved):
        c = n['inner']
        # inner: init, range decl, begin decl, end decl, cond, inc, loop var decl, body
        rng = [x for x in c if x and x.get('kind') == 'DeclStmt'][0]
        rv = kids(rng)[0]; rinit = kids(rv)[0]
        lvd = [x for x in c if x and x.get('kind') == 'DeclStmt'][-1]
        var = kids(lvd)[0]; bodyn = c[-1]
        b = self.lv_or_tmp(rinit)
        if b.rty in self.UCONT:
            it = self.local_name('it'); vt = qt(var).strip(); base = b.place
            if not vt.endswith('&'): raise Unsupported('range for by value over ' + b.rty)
            self.vars[var['id']] = LV(None, None, '%s.at_ref(%s)' % (base, it), None, 'Json', '(*%s.at_ref(%s))' % (base, it)) if b.rty == 'JList' else LV(None, None, None, None, 'KeyVal', (base, it, 'Json'))
            s = ls.sec; endh = s.get('end',''); bodyend = s.get('bodyend','')
            def cont():
                return (' proof { %s }' % bodyend if bodyend else '') + ' %s = %s + 1;' % (it, it) + (' proof { %s }' % endh if endh else '')
            self.names[it] = 1
            try: return self.finish_loop(idx, s, 'let mut %s: u64 = 0;' % it, '(%s < %s.size())' % (it, base), bodyn, cont, saved, '')
            finally: self.names.pop(it, None)
        if self.g.is_plain_struct(b.rty): return self.class_range_for(n, idx, ls, saved)
        if not b.rty.startswith(('CVec<','CArr<','Str','CDeque<','CList<','CSeq<')): raise Unsupported('range for over ' + b.rty)
        if not isinstance(b.place, str): raise Unsupported('range for over element')
        init = ''
        base = b.place
        if base.startswith('('):   # temporary
            if not re.match(r"^\(\*\w+\)(\.\w+)*$", base):
                v = self.local_name('range'); init = 'let %s = %s;' % (v, base); base = v
                b = LV(v, None, '&' + v, None, b.rty, v)
        it = self.local_name('it')
        e = self.elem(b.rty)
        init += ' let mut %s: u64 = 0;' % it
        cond = '(%s < %s.size())' % (it, base)
        vt = qt(var)
        l = self.index_lv(LV(None, None, '&' + base, '&mut ' + base, b.rty, base), it, b.rty)
        pre = ''
        if vt.strip().endswith('&') and 'const' not in vt and not is_copy(e) :
            self.vars[var['id']] = l
            if l.place is None: self.vars[var['id']] = l
        elif vt.strip().endswith('&') and 'const' not in vt and is_copy(e):
            self.vars[var['id']] = LV(l.read, l.write, None, None, e, None)
            nm = self.local_name(var['name'])
            # by-reference loop variable: reads go to the element itself
            mutated = assigns_to(bodyn, var['id'])
            if not mutated:
                pre = 'let mut %s: %s = %s;' % (nm, e, l.read)
                self.vars[var['id']] = self.simple_lv(nm, e)
        else:
            nm = self.local_name(var['name'])
            if is_copy(e): 
                pre = 'let mut %s: %s = %s;' % (nm, e, l.read)
                self.vars[var['id']] = self.simple_lv(nm, e)
            else:
                pre = 'let %s = %s;' % (nm, l.ref)
                self.vars[var['id']] = self.simple_lv(nm, e, constref=True)
        s = ls.sec; endh = s.get('end',''); bodyend = s.get('bodyend','')
        def cont():
            r = ''
            if bodyend: r += ' proof { %s }' % bodyend
            r += ' %s = %s + 1;' % (it, it)
            if endh: r += ' proof { %s }' % endh
            return r
        return self.finish_loop(idx, s, init, cond, bodyn, cont, saved, pre)
    def class_range_for(self, n, idx, ls, saved):
        """range for over a class of the repository: its begin(), end() and iterator are used as they are"""
        c = [x for x in n['inner'] if x and 'kind' in x]
        rng, beg, end, cd, inc, lvd, bodyn = c[-7:]
        rv = kids(rng)[0]; rinit = kids(rv)[0]; init = ''
        b = None
        try: b = self.lv(rinit)
        except Unsupported: pass
        if b is None or not isinstance(b.place, str):
            nm = self.local_name('range'); rt = b.rty if b is not None else self.T.rust(qt(rv)); init = 'let mut %s: %s = %s;' % (nm, rt, self.ex(rinit)); b = self.simple_lv(nm, rt)
        self.vars[rv['id']] = b
        for d, nm in ((kids(beg)[0], 'it'), (kids(end)[0], 'it_end')):
            rt = self.T.rust(qt(d)); nm = self.local_name(nm)
            init += ' let mut %s: %s = %s;' % (nm, rt, self.init_expr(kids(d)[0], rt)); self.vars[d['id']] = self.simple_lv(nm, rt)
        cond = self.cond(cd)
        pre = self.st(lvd)
        s = ls.sec; endh = s.get('end',''); bodyend = s.get('bodyend','')
        def cont():
            return (' proof { %s }' % bodyend if bodyend else '') + ' ' + self.stmt_expr(inc) + (' proof { %s }' % endh if endh else '')
        return self.finish_loop(idx, s, init, cond, bodyn, cont, saved, pre)
    def switch(self, n):
        c = kids(n)
        if len(c) != 2: raise Unsupported('switch with declaration')
        t = self.ty(c[0]); v = self.fresh('sw')
        pre = 'let %s: %s = %s;' % (v, t, self.ex(c[0]))
        body = kids(c[1]) if c[1]['kind'] == 'CompoundStmt' else [c[1]]
        # flatten into groups: (labels, stmts)
        groups = []
        def unlabel(s, labels):
            while s['kind'] in ('CaseStmt','DefaultStmt'):
                cc = kids(s)
                if s['kind'] == 'DefaultStmt': labels.append(None); s = cc[0]
                else:
                    if len(cc) != 2: raise Unsupported('case range')
                    labels.append(cc[0]); s = cc[1]
            return s
        for s in body:
            if s['kind'] in ('CaseStmt','DefaultStmt'):
                labels = []; s2 = unlabel(s, labels); groups.append((labels, [s2]))
            else:
                if not groups: raise Unsupported('statement before first case')
                groups[-1][1].append(s)
        self.loop_stack.append('switch')
        out = ''; default = None
        for gi, (labels, stmts) in enumerate(groups):
            flat = []
            for s in stmts:
                flat += kids(s) if s['kind'] == 'CompoundStmt' and any(y['kind'] == 'BreakStmt' for y in kids(s)) else [s]
            if flat and flat[-1]['kind'] == 'BreakStmt': flat = flat[:-1]
            elif gi != len(groups) - 1 and not (flat and terminates(flat[-1])): raise Unsupported('switch fallthrough')
            saved = dict(self.vars)
            code = '\n'.join(self.st(s) for s in flat)
            self.vars = saved
            if None in labels: default = code; 
            lab = [l for l in labels if l is not None]
            if lab and None not in labels:
                cs = ' || '.join('(%s == %s)' % (v, self.ex(l)) for l in lab)
                out += '%sif %s { %s }' % (' else ' if out else '', cs, code)
        self.loop_stack.pop()
        if default is not None:
            out += (' else { %s }' % default) if out else default
        return '{ %s %s }' % (pre, out)

def contains(n, kind, name=False):
    if name:
        if n.get('referencedDecl', {}).get('name') == kind: return True
    elif n.get('kind') == kind: return True
    return any(contains(x, kind, name) for x in kids(n))
def side_effects(n):
    k = n.get('kind')
    if k == 'UnaryOperator' and n['opcode'] in ('++','--'): return True
    if k in ('BinaryOperator','CompoundAssignOperator') and n.get('opcode','').endswith('=') and n['opcode'] not in ('==','!=','<=','>='): return True
    if k in ('CallExpr','CXXMemberCallExpr','CXXNewExpr'): return True
    return any(side_effects(x) for x in kids(n))
def terminates(s):
    if s['kind'] in ('ReturnStmt','ContinueStmt'): return True
    if s['kind'] == 'CompoundStmt' and kids(s): return terminates(kids(s)[-1])
    return False
def assigns_to(n, vid):
    k = n.get('kind')
    def isv(x):
        while x['kind'] in ('ParenExpr','ImplicitCastExpr') and kids(x): x = kids(x)[0]
        return x['kind'] == 'DeclRefExpr' and x['referencedDecl']['id'] == vid
    if k in ('BinaryOperator','CompoundAssignOperator') and (n.get('opcode','').endswith('=') and n['opcode'] not in ('==','!=','<=','>=')) and isv(kids(n)[0]): return True
    if k == 'UnaryOperator' and n['opcode'] in ('++','--','&') and isv(kids(n)[0]): return True
    return any(assigns_to(x, vid) for x in kids(n))
def tyname(t): return re.sub(r'_+$', '', re.sub(r'\W+', '_', t))
def int_range(t):
    b = int(t[1:])
    return (-(1 << (b-1)), (1 << (b-1)) - 1) if t[0] == 'i' else (0, (1 << b) - 1)

class Gen:
    def __init__(self, spec, tu, rename=None, require_loops=True):
        self.spec, self.tu = spec, tu
        self.types = Types(spec)
        self.rename = rename or {}
        self.require_loops = require_loops
        self.bound = {}      # decl id -> (rust name, node, cls, fnspec)
        self.optypes = spec.optypes
        self.consts = {}
        self.structs_out = []
        self.info = []       # per function info
        self.inlined = set()
        self.vacpoints = []
        self.base_of = {}    # struct -> struct of its (only) base class, embedded as the field base_
        for q, rust in spec.structs:
            for b in (tu.classes.get(q) or {}).get('bases', []):
                bt = b['type']
                for t in (bt.get('desugaredQualType'), bt['qualType']):
                    if t and t in spec.types and spec.types[t] in [y for _, y in spec.structs]: self.base_of[rust] = spec.types[t]
        for f in spec.fns: self.bind(f)
    # -- binding of contracts to functions of the current source
    def bind(self, f):
        cand = []
        for q, n, cls in self.tu.funcs:
            if q != f.qual: continue
            if f.sig and f.sig not in (n['type'].get('qualType','')): continue
            cand.append((q, n, cls))
        if f.sig:
            exact = [x for x in cand if x[1]['type'].get('qualType','').split(' noexcept')[0] == f.sig]
            if exact: cand = exact
        withbody = [x for x in cand if has_body(x[1])]
        if not withbody and '::' not in f.qual and f.qual not in self.tu.tried:
            self.tu.load_extra(f.qual); return self.bind(f)
        if not withbody: raise AttachError('no definition of %s %s in the current source' % (f.qual, f.sig or ''))
        if len({x[1]['id'] for x in withbody}) > 1: raise AttachError('ambiguous %s: %s' % (f.qual, [x[1]['type']['qualType'] for x in withbody]))
        q, node, cls = withbody[-1]
        f.node = node; f.cls = cls
        for _, n, _ in cand: self.bound[n['id']] = (f.rust, node, cls, f)
    def resolve(self, d):
        i = d.get('id')
        if i in self.bound: return self.bound[i]
        # helper without a contract: inline it (its body is its contract)
        for q, n, cls in self.tu.funcs:
            if n['id'] == i or n.get('previousDecl') == i:
                if has_body(n):
                    self.inlined.add(q)
                    return (None, n, cls, InlineSpec(n))
        for q, n, cls in self.tu.funcs:
            if n['id'] == i:
                for q2, n2, _ in self.tu.funcs:
                    if q2 == q and has_body(n2) and n2['type'] == n['type']:
                        self.inlined.add(q)
                        return (None, n2, cls, InlineSpec(n2))
        if d.get('kind') == 'FunctionDecl' and i not in self.tu.by_id and 'type' in d:
            self.tu.load_extra(d['name'])
            c = [x for x in self.tu.funcs if x[1].get('name') == d['name'] and x[1]['type']['qualType'] == d['type']['qualType'] and has_body(x[1]) and x[2] is None]
            if len({x[1]['id'] for x in c}) == 1:
                q, n, cls = c[0]
                if n['id'] in self.bound: return self.bound[n['id']]
                self.inlined.add(q)
                return (None, n, cls, InlineSpec(n))
        return None
    def same_type(self, a, b):
        if a == b: return True
        try: return self.types.rust(a) == self.types.rust(b)
        except Unsupported: return False
    def resolve_ctor(self, base, ctor):
        for i, b in self.bound.items():
            if b[1]['kind'] == 'CXXConstructorDecl' and b[3].opts.get('ctorof') and self.same_type(b[3].opts['ctorof'], base) and b[1]['type']['qualType'].split(' noexcept')[0] == ctor.split(' noexcept')[0]:
                return b
        return None
    def ret_type(self, node):
        t = node['type'].get('desugaredQualType') or node['type']['qualType']
        # the parameter list is the first '(' outside template arguments
        d = 0; k = len(t)
        for i, ch in enumerate(t):
            if ch == '<': d += 1
            elif ch == '>' and t[i-1:i] != '-': d -= 1
            elif ch == '(' and d == 0: k = i; break
        r = re.sub(r'^auto ', '', t[:k]).strip()
        if '->' in t or 'typename ' in r:      # trailing return type, possibly dependent: take the converted type of a returned value
            rs = []
            def go(x):
                if x['kind'] == 'LambdaExpr': return
                if x['kind'] == 'ReturnStmt' and kids(x): rs.append(qt(kids(x)[0]))
                for y in kids(x): go(y)
            go(node)
            r = rs[0] if rs else t.split('->')[-1].strip()
        return self.types.rust(r)
    def needs_heap(self, fs): return bool(fs.opts.get('heap'))
    def this_const(self, node, fs):
        if fs.opts.get('this') == 'ref': return True
        if fs.opts.get('this') == 'mut': return False
        return node['type']['qualType'].rstrip().endswith('const')
    def is_plain_struct(self, t): return t in [b for _, b in self.spec.structs]
    def by_ref_method(self, t, name): return t == 'Str' and name in ('append','eq','compare','find')
    def external_call(self, name, tr, args): 
        ext = getattr(self.spec, 'externs', {})
        if name in ext: return '%s(%s)' % (ext[name], ', '.join(tr.ex(a) if is_copy(tr.T_safe(a) or '') else tr.borrow(a) for a in args))
        return None
    def dbl_literal(self, v): return '"%s"' % v
    def ret_epilogue(self, tr): return ''
    vac = False
    def vacpoint(self, tr, what):
        """vacuity check: an assertion of an uninterpreted proposition, which must FAIL if the point is reachable"""
        if not self.vac: return ''
        self.vacpoints.append((tr.spec.rust, what))
        return ' proof { assert(vac_(%d)); } ' % (len(self.vacpoints) - 1)
    def retref_expr(self, tr, e): raise Unsupported('reference return')
    def global_const(self, v, tr):
        """global / static data member that the translated code never writes: its initialiser"""
        name = v.get('name')
        if name in self.consts: return self.consts[name]
        init = [x for x in kids(v) if not x['kind'].endswith('Attr') and not x['kind'].endswith('Comment')]
        if not init: raise Unsupported('global %s without visible initialiser' % name)
        t = self.types.rust(qt(v))
        s = tr.skip(init[0])
        if t == 'CArr<i8>' and s['kind'] == 'StringLiteral':
            cname = rid(name)
            lit = tr.strlit(s)
            l = LV('glob_%s()' % cname, None, '&glob_%s()' % cname, None, t, 'glob_%s()' % cname)
            vals = lit[5:-1]
            self.structs_out.append('pub open spec fn spec_glob_%s() -> Seq<i8> { seq![%s, 0i8] }\n#[verifier::external_body] pub fn glob_%s() -> (r: CArr<i8>) ensures r@ == spec_glob_%s() { unimplemented!() }' % (cname, vals, cname, cname))
        elif t in INTS or t == 'bool':
            e = tr.ex(init[0])
            l = LV(e, None, None, None, t, None)
        else: raise Unsupported('global %s of type %s' % (name, t))
        self.consts[name] = l
        return l
    # -- output
    def gen_struct(self, cpp, rust):
        n = self.tu.classes.get(cpp)
        if n is None: raise AttachError('no class ' + cpp)
        fs = ['pub base_: ' + self.base_of[rust]] if rust in self.base_of else []
        for c in kids(n):
            if c['kind'] == 'FieldDecl': fs.append('pub %s: %s' % (rid(c['name']), self.types.rust(qt(c))))
        if rust in self.spec.rvref: return 'pub struct %s { %s }' % (rust, ', '.join(fs))
        return 'pub struct %s { %s }\nimpl CCopy for %s { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }' % (rust, ', '.join(fs), rust)
    def gen_fn(self, f):
        # inside a class its own name means the class itself
        me = (f.cls or '').split('::')[-1]; m = self.types.map
        ov = {me: m[f.cls]} if me in m and m.get(f.cls) else {}
        if f.opts.get('names'): ov.update(x.split('=') for x in f.opts['names'].split())   # what an unqualified name means here
        was = {k: m.get(k) for k in ov}; m.update(ov)
        try: return self.gen_fn_(f)
        finally:
            for k, v in was.items():
                if v is None: m.pop(k, None)
                else: m[k] = v
    def gen_fn_(self, f):
        node = f.node; tr = FnTr(self, node, f, f.cls)
        ps = params_of(node); params = []; prologue = []
        isctor = node['kind'] == 'CXXConstructorDecl'
        heapctor = isctor and f.cls.split('::')[-1] in self.spec.heap
        if heapctor: isctor = False
        ismethod = node['kind'] in ('CXXMethodDecl','CXXConversionDecl','CXXDestructorDecl') and node.get('storageClass') != 'static'
        if self.needs_heap(f):
            params.append('h: &%s' % ('mut Heap' if f.opts['heap'] == 'mut' else 'Heap'))
        if ismethod or heapctor:
            st = f.opts.get('thistype')
            clsname = f.cls.split('::')[-1]
            if clsname in self.spec.heap:
                params.append('this: Ptr'); tr.this_lv = LV('this', None, None, None, 'Ptr', 'this')
            else:
                rt = self.types.rust(f.cls)
                if self.this_const(node, f):
                    params.append('this: &%s' % rt); tr.this_lv = tr.simple_lv('this', rt, constref=True)
                else:
                    params.append('this: &mut %s' % rt); tr.this_lv = tr.simple_lv('this', rt, mutref=True)
        names = f.params if f.params is not None else [p.get('name') or '_p%d' % i for i, p in enumerate(ps)]
        if len(names) != len(ps): raise AttachError('%s: %d parameters, contract names %d' % (f.rust, len(ps), len(names)))
        for nm, p in zip(names, ps):
            pt = qt(p).strip(); rt = self.types.rust(pt)
            base = pt.rstrip('& ').strip(); const = base.startswith('const ') or base.endswith(' const')
            r = rid(nm); tr.names[r] = 1
            if self.types.heapref(pt):
                params.append('%s: Ptr' % r); tr.vars[p['id']] = tr.deref_lv(tr.simple_lv(r, 'Ptr')); prologue.append('let ghost %s_0 = %s;' % (r, r))
            elif pt.endswith('&') and not pt.endswith('&&'):
                if const:
                    if is_copy(rt): params.append('%s: %s' % (r, rt)); tr.vars[p['id']] = tr.simple_lv(r, rt)
                    else: params.append('%s: &%s' % (r, rt)); tr.vars[p['id']] = tr.simple_lv(r, rt, constref=True)
                else:
                    params.append('%s: &mut %s' % (r, rt)); tr.vars[p['id']] = tr.simple_lv(r, rt, mutref=True)
                    if is_copy(rt): prologue.append('let ghost %s_0 = *%s;' % (r, r))
            elif f.opts.get('outptr') and pt.endswith('*') and not const:
                params.append('%s: &mut %s' % (r, rt)); tr.vars[p['id']] = tr.simple_lv(r, rt, mutref=True)
            elif pt.endswith('&&') and rt in self.spec.rvref:
                params.append('%s: &mut %s' % (r, rt)); tr.vars[p['id']] = tr.simple_lv(r, rt, mutref=True)
            elif rt.startswith('CArr<') and '*' in base:
                if const: params.append('%s: &%s' % (r, rt)); tr.vars[p['id']] = tr.simple_lv(r, rt, constref=True)
                else: params.append('%s: &mut %s' % (r, rt)); tr.vars[p['id']] = tr.simple_lv(r, rt, mutref=True)
            else:
                params.append('%s: %s' % (r, rt))
                if assigns_to(node, p['id']) or not is_copy(rt):
                    prologue.append('let ghost %s_0 = %s; let mut %s = %s;' % (r, r, r, r))
                else: prologue.append('let ghost %s_0 = %s;' % (r, r))
                tr.vars[p['id']] = tr.simple_lv(r, rt)
        if isctor:
            rt = self.types.rust(f.cls); tr.rett = rt
            prologue += self.ctor_prologue(tr, node, f, rt)
            tr.this_lv = tr.simple_lv('this_', rt)
            rty = rt
        else:
            rty = '()' if f.opts.get('retunit') or heapctor else 'u64' if f.opts.get('refidx') else self.ret_type(node); tr.rett = rty
        if heapctor:
            pre = self.heap_prefix(f.cls.split('::')[-1])
            for c in kids(self.tu.classes[f.cls]):
                if c['kind'] == 'FieldDecl' and re.match(r'^(CVec|CList|CDeque)<', self.types.rust(qt(c))): prologue.append('h.%s%s_clear(this);' % (pre, rid(c['name'])))
            for c in kids(node):
                if c['kind'] != 'CXXCtorInitializer': continue
                if 'delegatingInit' in c or 'anyInit' not in c and 'baseInit' not in c:
                    i = kids(c)[0]
                    while i['kind'] != 'CXXConstructExpr' and kids(i): i = kids(i)[0]
                    dr = self.resolve_ctor(f.cls.split('::')[-1], i.get('ctorType', {}).get('qualType', ''))
                    if dr is None: raise Unsupported('delegating constructor of a heap class')
                    prologue.append(tr.emit_call(dr, tr.deref_lv(tr.this_lv), [a for a in kids(i) if a['kind'] != 'CXXDefaultArgExpr']) + ';'); continue
                if 'anyInit' not in c: raise Unsupported('base of a heap class')
                if 'mt19937_64' in c['anyInit']['type']['qualType']:
                    i = kids(c)[0]
                    if i['kind'] == 'CXXConstructExpr' and not [a for a in kids(i) if a['kind'] != 'CXXDefaultArgExpr']: continue      # default state: nothing is assumed about it
                    raise Unsupported('initialiser of the engine')
                if re.match(r'^(CVec|CList|CDeque|CArr)<', self.types.rust(c['anyInit']['type']['qualType'])): continue
                prologue.append('h.set_%s%s(this, %s);' % (pre, rid(c['anyInit']['name']), tr.ex(kids(c)[0])))
        stmts = kids(body_of(node))
        entryvac = self.vacpoint(tr, 'entry')
        body = '\n'.join(tr.st(s) for s in stmts)
        if isctor: body += '\n%s this_' % (('proof { %s }' % f.sec['ret']) if f.sec.get('ret') else '')
        elif rty == '()':
            if not (stmts and always_returns(stmts[-1])): body += self.vacpoint(tr, 'return')
            if f.sec.get('ret'): body += '\nproof { %s }' % f.sec['ret']
        else:
            if not (stmts and always_returns(stmts[-1])): body += '\ncxx_unreachable()'
        # every annotation must have found its place
        for i in f.loops:
            if i not in tr.used_loops: raise AttachError('%s: contract has loop %d, code has %d loops' % (f.rust, i, tr.loopn))
        for i in f.ifs:
            if i not in tr.used_ifs: raise AttachError('%s: contract refers to if %s' % (f.rust, i))
        for i in f.calls:
            if i not in tr.used_calls: raise AttachError('%s: contract refers to call %s' % (f.rust, i))
        for i in f.after_decl:
            if i not in tr.used_decls: raise AttachError('%s: contract refers to local %s' % (f.rust, i))
        ext = f.opts.get('generics', '')
        head = 'pub fn %s%s(%s)' % (f.rust, ext if ext is not True else '', ', '.join(params))
        if f.opts.get('retmut') or f.opts.get('retcref'):
            head = re.sub(r'this: &', "this: &'a ", head.replace('(', "<'a>(", 1), count=1); rty = "&'a %s%s" % ('mut ' if f.opts.get('retmut') else '', rty)
        if rty != '()': head += ' -> (%s: %s)' % (f.opts.get('result', 'r'), rty)
        c = ''
        if f.sec.get('requires', '').strip(): c += '\n    requires ' + f.sec['requires'].strip().rstrip(',') + ','
        if f.sec.get('ensures', '').strip(): c += '\n    ensures ' + f.sec['ensures'].strip().rstrip(',') + ','
        if f.sec.get('decreases', '').strip(): c += '\n    decreases ' + f.sec['decreases'].strip().rstrip(',') + ','
        at = ''.join(a + '\n' for a in f.attrs)
        self.info.append({'fn': f.rust, 'qual': f.qual, 'locals': tr.local_list, 'loops': tr.loopn,
                          'file': locfile(node), 'line': locline(node)})
        iso = '' if f.opts.get('isolate') else '#[verifier::loop_isolation(false)]\n'
        return '// FN %s <- %s\n%s%s%s%s\n{ %s\n%s\n%s\n%s\n}\n// ENDFN %s\n' % (f.rust, f.qual, at, iso, head, c, f.sec.get('head', ''), '\n'.join(prologue), f.sec.get('entry', ''), entryvac + body, f.rust)
    def arrlen(self, n): return 'c_i32_u64(%s)' % self.spec.nttp[n] if n in self.spec.nttp else n
    def ctor_prologue(self, tr, node, f, rt):
        cn = self.tu.classes[f.cls]
        inits = {}
        for c in kids(node):
            if c['kind'] == 'CXXCtorInitializer':
                if 'anyInit' in c: inits[c['anyInit']['name']] = kids(c)[0]
                elif 'baseInit' in c and rt in self.base_of: inits['__base'] = kids(c)[0]
                elif 'baseInit' in c and qt(kids(c)[0]).startswith('std::iterator<'): pass     # an empty class
                elif 'baseInit' in c or 'delegatingInit' in c: inits['__delegate'] = kids(c)[0]
        if '__delegate' in inits:
            return ['let mut this_: %s = %s;' % (rt, tr.ex(inits['__delegate']))]
        out = []
        fl = ['base_: %s' % tr.ex(inits['__base'])] if '__base' in inits else []
        for c in kids(cn):
            if c['kind'] != 'FieldDecl': continue
            nm = rid(c['name']); t = qt(c)
            if c['name'] in inits and inits[c['name']]['kind'] != 'CXXDefaultInitExpr':
                i = inits[c['name']]
                frt = self.types.rust(t)
                if i['kind'] == 'CXXConstructExpr' and frt.startswith('CArr<') : e = 'CArr::alloc(0)'
                else: e = tr.init_expr(i, frt)
            else:
                m = re.match(r'^(.*)\[(\d+)\]$', t)
                if m: e = 'CArr::<%s>::alloc(%s)' % (self.types.rust(m.group(1)), self.arrlen(m.group(2)))
                else:
                    di = [x for x in kids(c) if not x['kind'].endswith('Comment')]
                    frt = self.types.rust(t)
                    if di and frt.startswith('CArr<'): e = 'CArr::alloc(0)'
                    elif di: e = tr.init_expr(di[0], frt)
                    elif re.match(r'^(CVec|CList|CDeque|CQueue|CStack|CSet|CMultiSet|CMap|CMultiMap)\b', frt): e = '%s::new()' % frt.replace('<', '::<', 1)
                    elif frt == 'Str': e = 'Str::new()'
                    else: e = 'undef::<%s>()' % frt
            fl.append('%s: %s' % (nm, e))
        out.append('let mut this_: %s = %s { %s };' % (rt, rt, ', '.join(fl)))
        return out
    def gen_heap(self):
        """explicit heap: objects of the @heap classes, addressed by pointers (u64, 0 = null)"""
        if not self.spec.heap: return ''
        out = []; fld = []; meth = []
        for q in self.spec.heap:
            n = self.tu.classes.get(q)
            if n is None:
                c = [x for x in self.tu.classes if x.split('::')[-1] == q]
                if len(c) != 1: raise AttachError('no class ' + q)
                q = c[0]; n = self.tu.classes[q]
            cn = q.split('::')[-1]; pre = self.heap_prefix(cn)
            fs = []
            for c in kids(n):
                if c['kind'] != 'FieldDecl': continue
                f = rid(c['name']); t = self.types.rust(qt(c)); m = re.match(r'^(CVec|CArr|CList|CDeque)<(.*)>$', t)
                mp = 'objs_%s' % cn
                has = 'h.%s().dom().contains(p)' % mp
                upd = lambda e: 'final(self).%s() == old(self).%s().insert(p, %s_ { %s: %s, ..old(self).%s()[p] })%s' % (mp, mp, cn, f, e, mp, ''.join(', final(self).objs_%s() == old(self).objs_%s()' % (o, o) for o in self.heap_names() if o != cn))
                rq = 'requires self.%s().dom().contains(p)' % mp; rqm = 'requires old(self).%s().dom().contains(p)' % mp
                X = '{ unimplemented!() }'; A = '#[verifier::external_body] pub fn '
                if m:
                    e = m.group(2); fs.append('pub %s: Seq<%s>' % (f, e)); L = 'self.%s()[p].%s' % (mp, f); LO = 'old(self).%s()[p].%s' % (mp, f)
                    g = pre + f
                    meth += [A + 'get_%s_at(&self, p: Ptr, i: u64) -> (r: %s) %s, i < %s.len() ensures r == %s[i as int] %s' % (g, e, rq, L, L, X),
                             A + 'set_%s_at(&mut self, p: Ptr, i: u64, x: %s) %s, i < %s.len() ensures %s %s' % (g, e, rqm, LO, upd('%s.update(i as int, x)' % LO), X)]
                    if m.group(1) != 'CArr':
                        meth += [A + '%s_size(&self, p: Ptr) -> (r: u64) %s ensures r == %s.len() %s' % (g, rq, L, X),
                             A + '%s_empty(&self, p: Ptr) -> (r: bool) %s ensures r == (%s.len() == 0) %s' % (g, rq, L, X),
                             A + '%s_back(&self, p: Ptr) -> (r: %s) %s, %s.len() > 0 ensures r == %s.last() %s' % (g, e, rq, L, L, X),
                             A + '%s_push_back(&mut self, p: Ptr, x: %s) %s ensures %s %s' % (g, e, rqm, upd('%s.push(x)' % LO), X),
                             A + '%s_pop_back(&mut self, p: Ptr) %s, %s.len() > 0 ensures %s %s' % (g, rqm, LO, upd('%s.drop_last()' % LO), X),
                             A + '%s_clear(&mut self, p: Ptr) %s ensures %s %s' % (g, rqm, upd('Seq::<%s>::empty()' % e), X)]
                else:
                    if t == 'Mt':
                        fs.append('pub %s: Mt' % f); g = pre + f; o = 'old(self).%s()[p].%s' % (mp, f)
                        meth += [A + '%s_next(&mut self, p: Ptr) -> (r: u64) %s ensures r == mt_out(%s), %s %s' % (g, rqm, o, upd('mt_step(%s)' % o), X),
                                 A + '%s_seed(&mut self, p: Ptr, s: u64) %s ensures %s %s' % (g, rqm, upd('mt_seed(s)'), X)]
                        continue
                    if not is_copy(t): raise Unsupported('heap field of type ' + t)
                    fs.append('pub %s: %s' % (f, t)); g = pre + f
                    meth += [A + 'get_%s(&self, p: Ptr) -> (r: %s) %s ensures r == self.%s()[p].%s %s' % (g, t, rq, mp, f, X),
                             A + 'set_%s(&mut self, p: Ptr, x: %s) %s ensures %s %s' % (g, t, rqm, upd('x'), X)]
            if cn in self.spec.heapalloc:
                oth = ''.join(', final(self).objs_%s() == old(self).objs_%s()' % (o, o) for o in self.heap_names() if o != cn)
                meth += ['#[verifier::external_body] pub fn alloc_%s(&mut self) -> (p: Ptr) ensures p != 0, !old(self).objs_%s().dom().contains(p), final(self).objs_%s().dom() == old(self).objs_%s().dom().insert(p), forall|q: Ptr| q != p ==> #[trigger] final(self).objs_%s()[q] == old(self).objs_%s()[q]%s { unimplemented!() }' % (cn, cn, cn, cn, cn, cn, oth),
                         '#[verifier::external_body] pub fn free_%s(&mut self, p: Ptr) requires old(self).objs_%s().dom().contains(p) ensures final(self).objs_%s() == old(self).objs_%s().remove(p)%s { unimplemented!() }' % (cn, cn, cn, cn, oth)]
            out.append('pub struct %s_ { %s }' % (cn, ', '.join(fs)))
            fld.append('pub uninterp spec fn objs_%s(&self) -> Map<Ptr, %s_>;' % (cn, cn))
        return 'pub type Ptr = u64;\npub const NULLP: Ptr = 0;\n' + '\n'.join(out) + '\n#[verifier::external_body] pub struct Heap { x: u8 }\nimpl Heap {\n' + '\n'.join(fld + meth) + '\n}\n'
    def gen_union(self, q, rust):
        n = self.tu.classes.get(q)
        if n is None: raise AttachError('no union ' + q)
        U = rust; vs = []; own = []; ms = []
        for c in kids(n):
            if c['kind'] != 'FieldDecl': continue
            f = c['name']; t = qt(c).strip(); ptr = t.endswith('*')
            rt = self.types.rust(t[:-1] if ptr else t)
            vs.append('%s(%s)' % (f, rt))
            unre = '_ => { cxx_unreachable() }'
            if ptr:
                own.append(f)
                ms += ['pub fn ref_%s(&self) -> (r: &%s) requires *self is %s ensures *r == self->%s_0 { match self { %s::%s(x) => x, %s } }' % (f, rt, f, f, U, f, unre),
                       'pub fn mut_%s(&mut self) -> (r: &mut %s) requires (*old(self)) is %s ensures *r == (*old(self))->%s_0, *final(self) == %s::%s(*final(r)) { match self { %s::%s(x) => x, %s } }' % (f, rt, f, f, U, f, U, f, unre),
                       'pub fn free_%s(&mut self) requires (*old(self)) is %s ensures *final(self) == %s::Freed_ { *self = %s::Freed_; }' % (f, f, U, U)]
            else:
                ms += ['pub fn get_%s(&self) -> (r: %s) requires *self is %s ensures r == self->%s_0 { match self { %s::%s(x) => *x, %s } }' % (f, rt, f, f, U, f, unre)]
            ms += ['pub fn set_%s(&mut self, x: %s) requires !(*old(self)).owns() ensures *final(self) == %s::%s(x) { *self = %s::%s(x); }' % (f, rt, U, f, U, f)]
        ms += ['pub open spec fn owns(self) -> bool { %s }' % ' || '.join('self is ' + f for f in own),
               'pub fn assign(&mut self, x: %s) requires !(*old(self)).owns() ensures *final(self) == x { *self = x; }' % U,
               'pub fn set_null(&mut self) requires !(*old(self)).owns() ensures *final(self) == %s::Null_ { *self = %s::Null_; }' % (U, U),
               '#[verifier::external_body] pub fn steal(&mut self) -> (r: %s) ensures r == *old(self), (*final(self)) == (if old(self).owns() { %s::Stolen_ } else { *old(self) }) { core::mem::replace(self, %s::Stolen_) }' % (U, U, U),
               '#[verifier::external_body] pub fn copy(&self) -> (r: %s) requires !self.owns() ensures r == *self { unimplemented!() }' % U]
        return 'pub enum %s { Null_, Freed_, Stolen_, %s }\nimpl %s {\n%s\n}' % (U, ', '.join(vs), U, '\n'.join(ms))
    def heap_names(self): return [q.split('::')[-1] for q in self.spec.heap]
    def heap_prefix(self, cn): return cn + '_' if len(self.spec.heap) > 1 else ''
    def generate(self, runtime):
        for x in self.spec.runtimes: runtime += '\n' + open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rt_%s.rs' % x)).read()
        heap = self.gen_heap()
        structs = [self.gen_struct(a, b) for a, b in self.spec.structs]
        structs += [self.gen_union(a, b) for a, b in self.spec.unions.items()]
        fns = [self.gen_fn(f) for f in self.spec.fns if not f.opts.get('inline')]
        return (runtime + '\nverus! {\n' + heap + '\n'.join(structs) + '\n' + '\n'.join(self.structs_out) + '\n' + self.spec.prelude + '\n' + '\n'.join(fns) + ('\nuninterp spec fn vac_(k: int) -> bool;' if self.vac else '') + '\nfn main() {}\n} // verus!\n')

class InlineSpec(FnSpec):
    def __init__(self, n):
        FnSpec.__init__(self, n['name']); self.rust = rid(n['name'])

def always_returns(s):
    k = s['kind']; c = kids(s)
    if k == 'ReturnStmt': return True
    if k == 'CompoundStmt': return bool(c) and always_returns(c[-1])
    if k == 'IfStmt': return len(c) > 2 and always_returns(c[1]) and always_returns(c[2])
    return False
def locfile(n):
    l = n.get('loc', {}); l = l.get('expansionLoc', l)
    return l.get('file') or l.get('includedFrom', {}).get('file')
def locline(n):
    l = n.get('loc', {}); l = l.get('expansionLoc', l)
    return l.get('line')
