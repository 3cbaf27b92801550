"""Load the real C sources through clang's JSON AST (re-extracted on every run)."""
import glob, json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
NVAL = 1009           # distinctive prime standing for MAX_VERTEX_NUM
SPECIAL = {}          # numeric value -> SMT term
for k in range(-3, 4):
    if k == 0: SPECIAL[NVAL] = 'N'
    elif k < 0: SPECIAL[NVAL + k] = '(- N %d)' % -k
    else: SPECIAL[NVAL + k] = '(+ N %d)' % k
NE = NVAL * (NVAL - 1) // 2
for k in range(-3, 4):
    if k == 0: SPECIAL[NE] = 'E'
    elif k < 0: SPECIAL[NE + k] = '(- E %d)' % -k
    else: SPECIAL[NE + k] = '(+ E %d)' % k


class Unsupported(Exception):
    pass


def main_dir(repo):
    return os.path.join(repo, 'src/HybridSolver/main')


def dump(path, repo):
    cmd = ['clang', '-nostdinc', '-isystem', os.path.join(HERE, 'stubs'), '-I', os.path.join(repo, 'src/HybridSolver'),
           '-std=gnu99', '-DMAX_VERTEX_NUM=%d' % NVAL, '-DHYBRID=vf_hybrid', '-Xclang', '-ast-dump=json',
           '-fsyntax-only', '-w', path]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise Unsupported('clang cannot parse %s: %s' % (path, p.stderr[:400]))
    return json.loads(p.stdout)


class Prog:
    def __init__(self):
        self.funcs = {}     # name -> FunctionDecl with body
        self.protos = {}
        self.records = {}   # name -> [(field, typestring)]
        self.typedefs = {}  # name -> type string
        self.enums = {}     # constant -> value
        self.enum_types = set()
        self.globals = {}   # name -> VarDecl
        self.file = {}


def load(repo, files=None):
    md = main_dir(repo)
    if files is None:
        files = sorted(f for f in glob.glob(md + '/**/*.c', recursive=True))
    with ThreadPoolExecutor(8) as ex:
        tus = list(ex.map(lambda f: dump(f, repo), files))
    pr = Prog()
    for f, tu in zip(files, tus):
        recs_by_id = {}
        for n in tu['inner']:
            k = n['kind']
            if k == 'RecordDecl' and n.get('completeDefinition'):
                flds = [(c['name'], c['type'].get('qualType')) for c in n.get('inner', []) if c['kind'] == 'FieldDecl']
                nm = n.get('name')
                recs_by_id[n['id']] = flds
                if nm: pr.records[nm] = flds
            elif k == 'TypedefDecl':
                nm = n['name']
                qt = n['type']['qualType']
                own = None

                def findown(x):
                    if isinstance(x, dict):
                        if 'ownedTagDecl' in x: return x['ownedTagDecl']['id']
                        if x.get('kind') == 'RecordType' and 'decl' in x: return x['decl']['id']
                        for c in x.get('inner', []) or []:
                            r = findown(c)
                            if r: return r
                    return None
                own = findown(n)
                if own in recs_by_id and '*' not in qt and '[' not in qt:
                    pr.records[nm] = recs_by_id[own]
                    pr.typedefs[nm] = nm
                else:
                    pr.typedefs[nm] = qt
            elif k == 'EnumDecl':
                v = -1
                for c in n.get('inner', []):
                    if c['kind'] != 'EnumConstantDecl': continue
                    v += 1
                    ce = [x for x in c.get('inner', []) if x.get('kind') == 'ConstantExpr']
                    if ce: v = int(ce[0].get('value', v))
                    pr.enums[c['name']] = v
                if n.get('name'): pr.enum_types.add(n['name'])
            elif k == 'FunctionDecl':
                body = [c for c in n.get('inner', []) if c['kind'] == 'CompoundStmt']
                if body:
                    if n['name'] in pr.funcs and n.get('storageClass') == 'static':
                        pass
                    pr.funcs[n['name']] = n
                    pr.file[n['name']] = os.path.relpath(f, repo)
                else:
                    pr.protos[n['name']] = n
            elif k == 'VarDecl':
                pr.globals[n['name']] = n
    annotate_lines(pr)
    return pr


def annotate_lines(pr):
    for nm, fn in pr.funcs.items():
        cur = [fn.get('loc', {}).get('line') or fn.get('range', {}).get('begin', {}).get('line') or 0]

        def w(n):
            if not isinstance(n, dict): return
            b = n.get('range', {}).get('begin', {})
            l = b.get('line') or b.get('expansionLoc', {}).get('line')
            if l: cur[0] = l
            n['_line'] = cur[0]
            for c in n.get('inner', []) or []: w(c)
            # the end position can also carry a line number
            e = n.get('range', {}).get('end', {})
            l = e.get('line') or e.get('expansionLoc', {}).get('line')
            if l: cur[0] = l
        w(fn)


# ---------------------------------------------------------------- types
class CT:
    """C type: kind in int kinds, 'double','float','void','ptr','arr','struct','func'"""
    __slots__ = ('kind', 'to', 'n', 'name')

    def __init__(self, kind, to=None, n=None, name=None):
        self.kind, self.to, self.n, self.name = kind, to, n, name

    def __repr__(self):
        if self.kind == 'ptr': return '%r*' % self.to
        if self.kind == 'arr': return '%r[%s]' % (self.to, self.n)
        if self.kind == 'struct': return self.name
        return self.kind

    def key(self):
        return repr(self)


INTK = {'bool', 'char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'enum'}
RANGES = {'bool': (0, 1), 'uchar': (0, 255), 'char': (-128, 127), 'short': (-32768, 32767), 'ushort': (0, 65535), 'uint': (0, None),
          'ulong': (0, None), 'enum': (0, None)}
BASE = {'_Bool': 'bool', 'bool': 'bool', 'char': 'char', 'signed char': 'char', 'unsigned char': 'uchar', 'short': 'short',
        'unsigned short': 'ushort', 'int': 'int', 'unsigned int': 'uint', 'long': 'long', 'unsigned long': 'ulong',
        'long long': 'long', 'unsigned long long': 'ulong', 'double': 'double', 'float': 'float', 'void': 'void'}


def dimterm(s):
    s = s.strip()
    if re.match(r'^\d+$', s):
        v = int(s)
        return SPECIAL.get(v, str(v))
    return ('expr', s)


class Types:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}
        self.regions = set()
        for r, fl in prog.records.items():
            for f, t in fl:
                ct = self.parse(t)
                while ct.kind == 'arr': ct = ct.to
                if ct.kind == 'ptr' and ct.to.kind == 'struct':
                    self.regions.add(ct.to.name)
        # malloc'ed types: found in sizeof() arguments
        def w(n):
            if isinstance(n, dict):
                if n.get('kind') == 'UnaryExprOrTypeTraitExpr' and 'argType' in n:
                    ct = self.parse(n['argType']['qualType'])
                    if ct.kind == 'struct': self.regions.add(ct.name)
                for c in n.get('inner', []) or []: w(c)
        for fn in prog.funcs.values(): w(fn)
        self.regions.discard('vf_file')

    def parse(self, s):
        if s in self.cache: return self.cache[s]
        r = self._parse(s)
        self.cache[s] = r
        return r

    def _parse(self, s):
        s = s.strip()
        m = re.match(r'^(.*?)((?:\[[^\]]*\])+)$', s)
        if m and '(' not in m.group(1):
            base = self.parse(m.group(1))
            dims = re.findall(r'\[([^\]]*)\]', m.group(2))
            for d in reversed(dims):
                base = CT('arr', base, dimterm(d) if d.strip() else None)
            return base
        if s.endswith('*') or s.endswith('*const') or s.endswith('*restrict') or s.endswith('* restrict') or s.endswith('* const'):
            s2 = re.sub(r'\*\s*(const|restrict)?$', '', s)
            return CT('ptr', self.parse(s2))
        s2 = re.sub(r'\b(const|volatile|register|static)\b', '', s).strip()
        s2 = re.sub(r'\s+', ' ', s2)
        if s2 in BASE: return CT(BASE[s2])
        if s2.startswith('enum '): return CT('enum', name=s2[5:])
        if s2.startswith('struct '): return CT('struct', name=self.recname(s2[7:]))
        if s2 in self.p.typedefs:
            t = self.p.typedefs[s2]
            if t == s2: return CT('struct', name=self.recname(s2))
            if t.startswith('struct ') and t[7:] in self.p.records: return CT('struct', name=self.recname(t[7:]))
            return self.parse(t)
        if s2 in self.p.records: return CT('struct', name=self.recname(s2))
        if s2 in self.p.enum_types: return CT('enum', name=s2)
        if '(' in s2: return CT('func', name=s2)
        raise Unsupported('type ' + s)

    def recname(self, s):
        return s

    def fields(self, name):
        if name not in self.p.records: raise Unsupported('record ' + name)
        return [(f, self.parse(t)) for f, t in self.p.records[name]]

    def is_region(self, ct):
        return ct.kind == 'struct' and ct.name in self.regions
