"""Which obligations and bounded jobs decide each property."""
import os, sys
from jobs import emit_configs, emit2_configs, opt_configs, clash_configs, clash_post, visitor_configs, part_configs
import l2jobs
FORM = {'emitted text has the form of the original construct'}      # the text parser's reach, not a postcondition
COMPILE = {'C01', 'C06', 'C10'}
TRUSTED = ['tools/extract/extract.cc (clang 17 AST of the real sources to JSON) and clang 17 itself',
           'vc/core.py, vc/interp.py (symbolic execution of the extracted AST) and vc/models.py (contracts of the C++ standard library, protobuf and clang API calls)',
           'vc/minic.py (meaning of the emitted C/C++ helper text)', 'z3']
ASSUME = ['contracts assumed for clang: Rewriter::InsertTextBefore/InsertTextAfterToken/ReplaceText edit the buffer as documented; Expr::Evaluate* and HasSideEffects report facts of the program',
          'machine integers of dredd itself are treated as mathematical (mutant counts below 2^31)',
          'abstracted by extraction: comments, source formatting, template definitions not instantiated by dredd']
TECH = 'contract-based deductive verification: postconditions of the real functions (clang AST extracted on every run), verification conditions by symbolic execution with callee contracts, discharged by z3'
NOTE = 'obligations proved for all inputs of the functions under contract; the bounded conformance jobs on the real executable replay failed obligations and stand in where a function is out of reach (never counted as proved)'
NA = {}
class Spec:
    def __init__(s, l1, l2, level='proof', bound='', trusted=(), assume=(), functions=(), post=None, extra=None, technique=None, note=None):
        s.technique = technique or TECH; s.note = note or NOTE
        s.l1, s.l2, s.level, s.bound, s.trusted, s.assume, s.functions, s.post, s.extra = l1, l2, level, bound, list(trusted), list(assume), list(functions), post, extra
def emit(opts=(True, False), tracks=(False, True)): return [('emit', c) for c in emit_configs(opts, tracks)]
def chunks(seed, nrand, size=70): return [c for cxx in (True, False) for c in l2jobs.split(cxx, size, seed, nrand)]
OPT, NOOPT = (), ('--no-mutation-opts',)
BOUND = 'the generated corpus l2/gen.py (every operator x operand type pair, constants, side effects, statement shapes, random expressions of depth 2) and the inputs in l2/drv.c'
def nr(tier): return 60 if tier == 'quick' else 600
def behave(tier, seed, mutants, opt=None, noopt=(4, 0)):
    thor = tier != 'quick'
    out = []
    for c in chunks(seed, nr(tier)):
        out.append(('j_behave', (c, OPT, mutants, None if thor else opt)))
        out.append(('j_behave', (c, NOOPT, mutants, None if thor else noopt)))
    return out
DRV = [('driver', (p, True, True)) for p in ('main', 'factory')]
DRVF = ['main', 'NewMutateFrontendActionFactory and create of the factory', 'MutateFrontendAction::{ctor, CreateASTConsumer}']
APPLYF = ['MutateAstConsumer::{HandleTranslationUnit, ApplyMutations}']
EMITF = ['MutationReplaceBinaryOperator::{ctor,Apply,...}', 'MutationReplaceUnaryOperator::{ctor,Apply,...}', 'MutationReplaceExpr::{ctor,Apply,...}', 'MutationRemoveStmt::{ctor,Apply,IsNextToken}']
SPEC = {}
SPEC['C01'] = Spec(lambda t: emit(tracks=(False,)), lambda t, s: behave(t, s, True, (9, 0), (29, 0)) + [('j_suite', ('firstuse', c)) for c in (True, False)], bound=BOUND, functions=EMITF)
SPEC['C02'] = Spec(lambda t: emit(tracks=(False,)), lambda t, s: behave(t, s, True, None, (4, s % 4)), bound=BOUND, functions=EMITF)
def emit2(): return [('emit2', c) for c in emit2_configs()]
SPEC['C03'] = Spec(lambda t: emit2() + part_configs('tree', 'apply') + part_configs('consumer', 'unit') + DRV, lambda t, s: behave(t, s, True, (9, 3), (29, 5)) + [('j_track', (c, o)) for c in chunks(s, nr(t), 150) for o in (OPT, NOOPT)], bound=BOUND, functions=EMITF + APPLYF + DRVF)
SPEC['C05'] = Spec(lambda t: [('prelude', (c, True, 'C05')) for c in (True, False)] + emit2() + part_configs('consumer', 'unit'), lambda t, s: [('j_track', (c, o)) for c in chunks(s, nr(t), 100) for o in (OPT, NOOPT)] +
                   [('j_suite', ('prelude', cxx, cs, True)) for cxx in (True, False) for cs in [((0, 1), (3, 64)), ((5, 65), (64, 63)), ((2, 130), (1, 62))]] + [('j_suite', ('threads', c, True)) for c in (True, False)], bound=BOUND, functions=EMITF + ['MutateAstConsumer::GetDreddPrelude{Cpp,C}, GetMutantTrackingDreddPrelude{Cpp,C}', 'emitted __dredd_record_covered_mutants (C and C++), parsed from the generated text'])
SPEC['C09'] = Spec(lambda t: emit((True,), (False,)) + visitor_configs(['expr', 'decl', 'compound']) + part_configs('consumer', 'range'), lambda t, s: [('j_info', (c, o)) for c in chunks(s, nr(t), 150) for o in (OPT, NOOPT)] + MAC(), bound=BOUND + '; the macro and directive shapes of l2/suites.py:macros', functions=EMITF + ['GetSourceRangeInMainFile', 'MutateVisitor::{VisitExpr, VisitVarDecl, TraverseCompoundStmt, TraverseDecl} and the functions they use'])
def MAC(): return [('j_suite', ('macros', c, o)) for c in (True, False) for o in (OPT, NOOPT)]
PRE_CASES = [((0, 1), (3, 64)), ((5, 65), (64, 63)), ((2, 130), (1, 62)), ((70, 3), (0, 128)), ((63, 64), (129, 1))]
SPEC['C04'] = Spec(lambda t: [('prelude', (c, False, 'C04')) for c in (True, False)] + part_configs('consumer', 'unit'), lambda t, s: [('j_suite', ('prelude', cxx, cs)) for cxx in (True, False) for cs in PRE_CASES] + [('j_suite', (x, c) + y) for c in (True, False) for x, y in (('firstuse', ()), ('threads', (False,)))], bound='file sizes and first ids ' + str(PRE_CASES), functions=['MutateAstConsumer::GetDreddPrelude{Cpp,C}, GetRegularDreddPrelude{Cpp,C}', 'emitted __dredd_enabled_mutation (C and C++), parsed from the generated text'],
                   assume=['each non-empty item of the list is a decimal integer in the range of int (the documented format)', 'signed overflow of the subtraction wraps (ids of other files below INT_MIN + first id only)', 'contracts of getenv, strtok, atoi, malloc, strcpy, std::stoi, std::string::find/substr/erase/empty'])

def expl(rule): return lambda n: dict(evaluations=n, distinct_nontrivial=n, rule=rule, samples=['see l2/suites.py'])
CTX = {True: [c[0] for c in l2jobs.suites.CONTEXTS_CXX], False: [c[0] for c in l2jobs.suites.CONTEXTS_C]}
def static(): return [('j_suite', ('static', c, o, (x,))) for c in (True, False) for x in CTX[c] for o in (OPT, NOOPT)]
SPEC['C06'] = Spec(lambda t: [('clash', c) for c in clash_configs()] + part_configs('consumer', 'unit'), lambda t, s: [('j_suite', ('clash', True, o, (k, 6))) for k in range(6) for o in (OPT, NOOPT)] + [('j_suite', ('clash', c, o)) for c in (True, False) for o in (OPT, NOOPT)],
                   functions=EMITF, post=clash_post, bound='l2/suites.py:clash_units')
SPEC['C07'] = Spec(lambda t: [('visitor', ('skip', c, True)) for c in (True, False)] + [('opt', c) for c in opt_configs()], lambda t, s: [('j_suite', (x, c)) for c in (True, False) for x in ('opt', 'optsites')], functions=EMITF, assume=['operand values of floating-point type are treated as real numbers (no NaN, infinities, rounding or signed zero)', 'a mutant that is undefined where the original is defined counts as redundant there'], bound='l2/suites.py:opt: every operator x operand types x constant operands, decided on sample values; l2/suites.py:optsites')
VISF = ['MutateVisitor::{TraverseDecl, TraverseVarDecl, TraverseStmt, TraverseCaseStmt, TraverseConstantArrayTypeLoc, TraverseVariableArrayTypeLoc, TraverseDependentSizedArrayTypeLoc, TraverseTemplateArgumentLoc, TraverseLambdaCapture, TraverseParmVarDecl, TraverseCompoundStmt, VisitExpr, VisitVarDecl, HandleUnaryOperator, HandleBinaryOperator, HandleExpr, IsTypeSupported, IsInFunction, IsConversionOfEnumToConstructor, AddMutation, IsArgumentToArgumentDependentLookupCall, MutatingMayAffectArgumentDependentLookup, MayDependOnLifetimeOfMaterializedTemporaryStorage, SaveConstantTemplateArgumentForRewrite}']
TREEF = ['MutationTreeNode::{IsEmpty, AddMutation, AddChild, PruneEmptySubtrees, Compress, TidyUp}', 'MutateAstConsumer::ApplyMutations']
SPEC['C08'] = Spec(lambda t: visitor_configs(['expr', 'stmt', 'var', 'decl', 'case', 'compound']) + part_configs('tree', 'empty', 'tidy', 'prune', 'compress', 'children', 'apply'), lambda t, s: [('j_suite', ('tree', 6, 9 if t == 'quick' else 10))] + [('j_info', (c, o)) for c in chunks(s, nr(t), 150) for o in (OPT, NOOPT)], bound='all trees up to 6 nodes with at most 2 and up to 9 with at most 1 mutation per node; ' + BOUND, functions=VISF + TREEF)
SPEC['C10'] = Spec(lambda t: visitor_configs(['expr', 'stmt', 'var', 'decl', 'case', 'none', 'compound', 'pred', 'infn', 'visitvar']), lambda t, s: static(), bound='l2/suites.py FORBID_* x CONTEXTS_*', functions=VISF)
SPEC['C11'] = Spec(lambda t: visitor_configs(['stmt', 'var', 'decl', 'save']) + part_configs('consumer', 'const', 'rewrite', 'unit'), lambda t, s: [('j_suite', ('values', (v,), (o,))) for v in ('-std=c++17', '-std=c++20') for o in (OPT, NOOPT)] + static(), bound='l2/suites.py:values', functions=VISF + APPLYF + ['MutateAstConsumer::{RewriteExpressionsInMainFile, RewriteExpressionInMainFileToIntegerConstant}'])
SPEC['C12'] = Spec(lambda t: part_configs('consumer', 'unit', 'begin', 'diag') + DRV, lambda t, s: [('j_suite', ('multi', tuple(q), o)) for o in (OPT,) for q in split8(l2jobs.suites.multi_seqs(t, s))], bound='l2/suites.py:multi_seqs', functions=APPLYF + DRVF + ['MutateFrontendAction::BeginInvocation', 'the diagnostic consumer installed for the run'])
def split8(x): return [x[i::8] for i in range(8)]
