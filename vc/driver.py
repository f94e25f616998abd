"""C03, C12: contracts of main and of the frontend action factory: one id counter,
one info and one set of processed files for all files of a run, the options given
on the command line, the exit status, the list of failed files, the info file."""
import re, z3
from core import *
import interp, models
from interp import bare
from consumer import execute, one_iteration
from visitor import Post, B
Z = z3.Int
OPTS = ('no_mutation_opts', 'only_track_mutant_coverage', 'dump_asts', 'show_ast_node_types')
def main_fn(prog, cxx, opt, res):
    P = Post(res, 'main'); n = 0
    g = {x: Obj('opt:' + x, 'llvm::cl::opt<bool>') for x in OPTS}
    g['mutation_info_file'] = Obj('opt:mutation_info_file', 'llvm::cl::opt<std::string>'); g['mutate_category'] = Obj('category', ''); g['std::ios_base::out'] = Obj('out', ''); g['std::ios_base::trunc'] = Obj('out', ''); g['std::ios_base::app'] = Obj('append', ''); g['std::ios_base::binary'] = Obj('out', '')
    def optval(it, c, this, a):
        v = val(this)
        if not isinstance(v, Obj) or not v.name.startswith('opt:'): return NotImplemented
        return R(Hole(v.name)) if v.name == 'opt:mutation_info_file' else B(v.name)
    def out(it, c, this, a):
        x = ([this] if this is not None else []) + list(a)
        st, v = val(x[0]), val(x[1])
        if not isinstance(st, Obj): return NotImplemented
        it.c.effect('out', st.name, repr(v) if isinstance(v, Rope) else it.nm(v)); return x[0]
    def obj(name, t): return lambda it, c, this, a: Obj(name, t)
    def run(it, c, this, a):
        if it.c.region: raise NeedFork()
        p = val(a[0]); it.c.effect('run', it.nm(p)); return Z('rc')
    def factory(it, c, this, a):
        o, i, f = val(a[0]), a[1], a[2]
        if not isinstance(i, Cell) or not isinstance(f, Cell): raise ToolLimit('factory arguments')
        opts = {k: v.v for k, v in o.f.items()} if isinstance(o, Struct) else None
        it.c.effect('factory', opts, i, i.v, f, f.v)
        return Ptr(Obj('factory', 'clang::tooling::FrontendActionFactory'), True)
    def json(it, c, this, a):
        if it.c.region: raise NeedFork()
        m = a[0]; s = val(a[1])
        it.c.effect('json', m, s.to if isinstance(s, Ptr) else None)
        if isinstance(s, Ptr) and isinstance(s.to, Cell): it.c.write(s.to, R(Hole('json')))
        return Obj('status', 'status')
    def mk(it, c, this, a):
        t = c['targs'][0] if c.get('targs') else '?'
        return Ptr(Obj('new:' + bare(t), bare(t)), True)
    def st(it, c, this, a): return Struct('opts') if not a else NotImplemented
    def parsed(it, c, this, a): return B('parsed')
    def ofs(it, c, this, a):
        v = val(a[0]) if a else None
        nm = repr(v) if isinstance(v, Rope) else getattr(v, 'name', '?')
        it.c.effect('open', nm, [it.nm(x) for x in a[1:]]); return Obj('file', 'std::ofstream')
    extra = {'llvm::ArrayRef::ArrayRef': lambda it, c, this, a: val(a[0]) if a and isinstance(val(a[0]), Obj) else NotImplemented, 'llvm::sys::PrintStackTraceOnErrorSignal': lambda *a: None, 'clang::tooling::CommonOptionsParser::create': lambda it, c, this, a: Obj('cmdline', 'Expected'),
             'llvm::Expected::operator bool': parsed, 'llvm::Expected::takeError': obj('error', 'llvm::Error'), 'llvm::toString': lambda it, c, this, a: R(Hole('error')), 'llvm::Expected::get': obj('parser', 'clang::tooling::CommonOptionsParser'),
             'llvm::Expected::operator->': lambda it, c, this, a: Ptr(Obj('parser', 'clang::tooling::CommonOptionsParser'), True), 'llvm::Expected::operator*': obj('parser', 'clang::tooling::CommonOptionsParser'),
             'clang::tooling::ClangTool::ClangTool': lambda it, c, this, a: (it.c.effect('tool', [it.nm(x) for x in a]), Obj('tool', 'clang::tooling::ClangTool'))[1],
             'clang::tooling::ClangTool::setDiagnosticConsumer': lambda it, c, this, a: it.c.effect('consumer', it.nm(a[0])),
             'clang::ChainedDiagnosticConsumer::ChainedDiagnosticConsumer': lambda it, c, this, a: (it.c.effect('chain', [it.nm(x) for x in a]), Obj('chain', 'clang::ChainedDiagnosticConsumer'))[1],
             'clang::tooling::ClangTool::run': run, 'dredd::NewMutateFrontendActionFactory': factory, 'std::make_unique': mk, 'std::make_shared': mk, 'clang::DiagnosticOptions::DiagnosticOptions': st, 'llvm::IntrusiveRefCntPtr::IntrusiveRefCntPtr': lambda it, c, this, a: val(a[0]) if a else NULL, 'llvm::IntrusiveRefCntPtr::operator->': lambda it, c, this, a: val(this), 'llvm::IntrusiveRefCntPtr::operator*': lambda it, c, this, a: it.deref(val(this)),
            
             'google::protobuf::util::MessageToJsonString': json, 'google::protobuf::util::JsonOptions': st, 'operator<<': out, 'llvm::raw_ostream::operator<<': out, 'std::operator<<': out,
             'std::basic_ofstream::basic_ofstream': ofs, 'clang::DiagnosticConsumer::getNumErrors': lambda it, c, this, a: Z('errors'),
             'LogFailedFilesDiagnosticConsumer::GetFilesWithErrors': obj('files', 'std::set<std::string>'), 'std::set::empty': lambda it, c, this, a: B('nofiles') if isinstance(val(this), Obj) else NotImplemented,
             'std::basic_string::empty': lambda it, c, this, a: z3.Not(B('wantinfo')) if isinstance(val(this), Obj) and 'mutation_info_file' in val(this).name or 'mutation_info_file' in repr(val(this)) else NotImplemented,
             'google::protobuf::util::status_internal::Status::ok': lambda it, c, this, a: B('jsonok'), 'absl::Status::ok': lambda it, c, this, a: B('jsonok'), 'google::protobuf::util::JsonOptions::JsonOptions': st,
             'google::protobuf::util::JsonPrintOptions::JsonPrintOptions': st}
    cfg = {'globals': g, 'seq_loop': one_iteration, 'convert': optval}
    import interp as I
    class Extra(dict):
        def get(s, q, d=None):
            f = dict.get(s, q)
            if f: return f
            if q and 'llvm::cl::opt' in q and ('operator' in q): return optval
            return d
    def this(it, ctx):
        oc = it.c.models.call
        def call(it2, c, this_, a, e):
            q = interp.sq(c['q'])
            if 'llvm::cl::' in q and c['n'].startswith('operator'):
                r = optval(it2, c, this_, a)
                if r is not NotImplemented: return r
            if c['n'] == 'operator<<':
                r = out(it2, c, this_, a)
                if r is not NotImplemented: return r
            if c['n'] == 'ok' and 'tatus' in q: return B('jsonok')
            return oc(it2, c, this_, a, e)
        it.c.models.call = call
        return None
    recs = execute(prog, 'main', this, lambda it, ctx, f: [Z('argc'), Cell(ListV([Cell(R(Hole('argv0')))]))], cxx, extra=extra, cfg=cfg)
    for c, r in recs:
        n += 1
        ef = r['effects']; ret = r['ret']
        k = [e[0] for e in ef]
        if isinstance(ret, str):
            i = k.index('iteration')
            P.need(c, 'C12', 'the files with errors are listed one by one on standard error', ef[i][1] == 'files' and any(e[0] == 'out' and e[1] == 'errs' and e[2] == ef[i][2] for e in ef[i:]), str(ef[i:])[:300])
            P.need(c, 'C12', 'the files with errors are listed after the run', 'run' in k[:i])
            P.need(c, 'C12', 'all the files with errors are listed', 'break' not in k)
            continue
        rt = ret if isz(ret) else z3.IntVal(int(ret))
        if 'run' not in k:
            P.need(c, 'C12', 'no files are processed only if the command line is rejected', z3.And(z3.Not(B('parsed')), rt != 0)); continue
        P.need(c, 'C12', 'all files are processed in one run', k.count('run') == 1 and k.count('factory') == 1 and k.index('factory') < k.index('run') and ef[k.index('run')][1] == 'factory', str(k))
        P.need(c, 'C12', 'the files processed are those of the command line', 'tool' in k and any('getSourcePathList' in x for x in ef[k.index('tool')][1]), str(ef[k.index('tool')])[:200] if 'tool' in k else '')
        _, o, idc, idv, ic, iv = ef[k.index('factory')]
        P.need(c, 'C03', 'ids start at 0 in every run', (idv if isz(idv) else z3.IntVal(int(idv))) == 0)
        P.need(c, 'C03', 'the id counter is left alone while files are processed', idc.v is idv or idc.v == 0)
        if not isinstance(iv, Opt): raise ToolLimit('mutation info')
        h = iv.has if isz(iv.has) else z3.BoolVal(bool(iv.has))
        P.need(c, 'C12', 'the info is collected iff an info file is named', h == B('wantinfo'))
        if o is None: raise ToolLimit('options')
        ob = {'optimise': z3.Not(B('opt:no_mutation_opts')), 'dump': B('opt:dump_asts'), 'only_track': B('opt:only_track_mutant_coverage'), 'show': B('opt:show_ast_node_types')}
        for fl, v in o.items():
            w = [e for s, e in ob.items() if fl.startswith(s)]
            if len(w) != 1: raise ToolLimit('option ' + fl)
            P.need(c, 'C12', 'each option is that given on the command line', (v if isz(v) else z3.BoolVal(bool(v))) == w[0], fl)
        ch = [e for e in ef if e[0] == 'chain']; co = [i for i, e in enumerate(ef) if e[0] == 'consumer']
        P.need(c, 'C12', 'errors of the run are observed', bool(co) and co[-1] < k.index('run') and any('LogFailed' in x for e in ch for x in e[1]) and 'chain' in ef[co[-1]][1], str(ch))
        after = ef[k.index('run') + 1:]
        js = [e for e in after if e[0] == 'json']; op = [e for e in after if e[0] == 'open']; wr = [e for e in after if e[0] == 'out' and e[1] == 'file']
        P.need(c, 'C12', 'the exit status is zero only if every file was accepted', z3.Implies(rt == 0, Z('rc') == 0))
        P.need(c, 'C12', 'the exit status is zero if every file was accepted and the info can be written', z3.Implies(z3.And(Z('rc') == 0, z3.Or(z3.Not(B('wantinfo')), B('jsonok'))), rt == 0))
        done = bool(js) and js[0][1] is iv.v and len(op) == 1 and 'mutation_info_file' in op[0][1] and 'append' not in op[0][2] and [e[2] for e in wr] == [repr(R(Hole('json')))]
        P.need(c, 'C12', 'the info that was collected is written to the info file, whether or not there were errors', z3.Implies(z3.And(B('wantinfo'), B('jsonok')), z3.BoolVal(done)), str((js, op, wr))[:300])
        P.need(c, 'C12', 'nothing is written if no info file is named', z3.Implies(z3.Not(B('wantinfo')), z3.BoolVal(not op)))
        P.need(c, 'C12', 'all the files with errors are listed', 'break' not in k)
        P.need(c, 'C12', 'files with errors are announced', z3.Implies(z3.And(Z('rc') != 0, z3.Not(B('nofiles'))), z3.BoolVal(any(e[0] == 'out' and e[1] == 'errs' and 'not mutated' in e[2] for e in after))))
    return n, recs
def factory_fn(prog, cxx, opt, res):
    """NewMutateFrontendActionFactory, the create of the factory and CreateASTConsumer of the action:
    the consumer of every file is given the options, the id counter and the info of the run, and all
    actions of a run share one set of processed files."""
    P = Post(res, 'NewMutateFrontendActionFactory'); n = 0
    q = 'dredd::NewMutateFrontendActionFactory'
    made = lambda t: lambda it, c, this, a: NotImplemented
    def mk(it, c, this, a):
        t = bare(c['targs'][0]) if c.get('targs') else '?'
        it.c.effect('make', t, list(a)); return Ptr(Obj('new:' + t, t), True)
    # the classes are found through what the functions make
    def run(fn, this, args, tag):
        return execute(prog, fn, this, args, cxx, extra={'std::make_unique': mk, 'std::make_shared': mk})
    cells = {}
    def args3(it, ctx, f):
        if len(f['params']) != 3: raise ToolLimit('parameters of ' + q)
        cells['o'], cells['i'], cells['m'] = Obj('Options', 'dredd::Options'), Cell(Z('id0'), 'id'), Cell(Opt(B('info'), Cell(Struct('dredd::protobufs::MutationInfo'), 'info')), 'info')
        return [cells['o'], cells['i'], cells['m']]
    def ctor(cls, a):
        "The object that the constructor of the class makes of these arguments."
        fs = [f for k, l in prog.byname.items() for f in (l if isinstance(l, list) else [l]) if f and (k == cls + '::' + cls.split('::')[-1] or k.endswith('::' + cls + '::' + cls)) and len(f['params']) == len(a)]
        if len(fs) != 1: raise ToolLimit('constructor of ' + cls)
        return fs[0]
    def build(it, t, a):
        short = t.split('::')[-1]
        f = ctor(t if t in prog.rec else short, a)
        rec = prog.rec.get(t) or prog.rec.get(short)
        st = Cell(Struct(t))
        for fl in rec['fields']: st.v.f[fl['name']] = Cell(Obj('field:' + fl['name'], bare(fl['t'])), fl['name'])
        it.construct_into(st, f, list(a))
        return st
    def given(mks, k):
        "What is made is given the options, the id counter and the info (of different types, so in any order)."
        if len(mks) != 1 or len(mks[0][2]) != k: raise ToolLimit('what %s makes: %s' % (q, str(mks)[:200]))
        a = mks[0][2]
        return any(val(x) is cells['o'] for x in a) and any(x is cells['i'] for x in a) and any(x is cells['m'] for x in a)
    recs = run(q, lambda it, ctx: None, args3, '')
    def resolve(v):
        v = val(v) if not isinstance(v, (Cell, Obj)) else v
        return v
    for c, r in recs:
        mks = [e for e in r['effects'] if e[0] == 'make']
        P.need(c, 'C03', 'the factory is made of the options, the id counter and the info of the run', given(mks, 3), str(mks)[:200])
        n += 1
    if len(recs) != 1: raise ToolLimit('paths of ' + q)
    ft = [e for e in recs[0][1]['effects'] if e[0] == 'make'][0][1]
    cr = [f for k, l in prog.byname.items() for f in (l if isinstance(l, list) else [l]) if f and k.endswith('::' + ft.split('::')[-1] + '::create') and f.get('body') is not None]
    if len(cr) != 1: raise ToolLimit('create of ' + ft)
    keep = {}
    def this_f(it, ctx):
        o, i, m = args3(it, ctx, {'params': [1, 2, 3]})
        keep['f'] = build(it, ft, [o, i, m]); return keep['f']
    recs2 = run(cr[0], this_f, lambda it, ctx, f: [], '')
    ok = len(recs2) == 1
    for c, r in recs2:
        n += 1
        mks = [e for e in r['effects'] if e[0] == 'make']
        a = mks[0][2] if len(mks) == 1 else []
        fields = keep['f'].v.f
        own = [x for x in fields.values() if x.v is not cells['o'] and x is not cells['i'] and x is not cells['m']]
        P.need(c, 'C03', 'every action is given the options, the id counter and the info of the run', given(mks, 4), str(mks)[:300])
        P.need(c, 'C12', 'all actions share one set of processed files', any(y is x for y in a for x in own if val(x) is not cells['o']), '%s %s' % (str(mks)[:300], own))
    if not ok: raise ToolLimit('paths of create')
    at = [e for e in recs2[0][1]['effects'] if e[0] == 'make'][0][1]
    def this_a(it, ctx):
        o, i, m = args3(it, ctx, {'params': [1, 2, 3]})
        return build(it, at, [o, i, m, Cell(Obj('set:processed', ''), 'processed')])
    recs3 = run(at + '::CreateASTConsumer' if prog.find(at + '::CreateASTConsumer') else 'dredd::MutateFrontendAction::CreateASTConsumer', this_a, lambda it, ctx, f: [Obj('CompilerInstance', 'clang::CompilerInstance'), R(Hole('file'))], '')
    for c, r in recs3:
        n += 1
        mks = [e for e in r['effects'] if e[0] == 'make']
        a = mks[0][2] if len(mks) == 1 else []
        P.need(c, 'C03', 'the consumer of every file is given the options, the id counter and the info of the run', given(mks, 4), str(mks)[:300])
    return n, recs + recs2 + recs3
PARTS = {'main': main_fn, 'factory': factory_fn}
def job(prog, part, cxx, opt, res):
    n, recs = PARTS[part](prog, cxx, opt, res)
    if not n: raise ToolLimit('%s: no path to judge' % part)
    return dict(paths=len(recs), queries=sum(c.stats['checks'] for c, _ in recs))
if __name__ == '__main__':
    import sys, time; from mutharness import load; from checker import Result
    p = load(sys.argv[1] if len(sys.argv) > 1 else '/tmp/b0/x')
    for part in PARTS:
        R_ = Result()
        try: print(part, job(p, part, True, True, R_))
        except ToolLimit as e: print(part, 'LIMIT', str(e)[:300])
        for k, v in R_.names.items(): print('  ', k, v)
        for b in R_.bad[:4]: print(str(b)[:500])
