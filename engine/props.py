"""The properties and the obligations that decide them."""
import lint
import life
from interp import LV, UNDEF, raw

PROPS = {}

ASSUME = ['clang parses the sources as g++ does', 'the container, string, stream, JSON and OpenFst models of engine/models.py',
          'machine integers do not wrap', 'reference models in specs/ state the intended behaviour']


LINT_TECH = 'static analysis: rules over the type-checked syntax trees of everything main can reach: '
LINT_NOTE = ('Decides the property for all runs from the source: every function, constructor and destructor reachable from main (virtual calls to every override) is '
             'analysed, and the offending construct is named with file and line. Trusted: the clang front end, the list of library functions that are sources or '
             'file operations in engine/lint.py, and library code that does nothing else. It over-approximates feasible paths, never the constructs.')


def prop(pid, floor, explanation, technique=None):
    def d(f):
        PROPS[pid] = {'run': f, 'floor': floor, 'explanation': explanation, 'assumptions': ASSUME}
        if technique:
            PROPS[pid]['technique'] = LINT_TECH + technique
            PROPS[pid]['note'] = LINT_NOTE
        return f
    return d


def np(n):
    return lambda f: len(f.params) == n


def pureval(q):
    """a member function whose value matters here but whose body is decided elsewhere and changes nothing"""
    return lambda ip, e, obj, args: ip.ucall(q, [ip.load(obj)] + [ip.rv(a) for a in args])


@prop('C05', 4, 'Value graphs of the fast edit-distance pass, the acceptance of its map and its use are congruent with the reference model.')
def c05(c):
    c.loadspec('c05.cpp')
    c.equiv('GetEditDistanceOnly', 'spec::GetEditDistanceOnly')
    c.equiv(c.fn('GetEditDistance', 4), c.fn('spec::GetEditDistance', 4))
    c.equiv(c.fn('GetEditDistance', 2), c.fn('spec::GetEditDistance', 2), noinline=[])
    c.equiv('MapContainsErrorStreaks', 'spec::MapContainsErrorStreaks')


@prop('C06', 5, 'Value graphs of the error-rate, error-count, precision and recall computations are congruent with the reference formulas.')
def c06(c):
    c.loadspec('c06.cpp')
    for k in ('WerResult', 'wer_alignment'):
        for m in ('WER', 'NumErrors'):
            c.equiv('%s::%s' % (k, m), 'spec::%s_::%s' % (k, m))
    c.equiv('CalculatePrecisionRecall', 'spec::CalculatePrecisionRecall', select=lambda n: n.endswith('.precision') or n.endswith('.recall'))


@prop('C07', 3, 'For every report writer, the JSON member to quantity mapping is congruent with the reference model.')
def c07(c):
    c.loadspec('c06.cpp')
    c.loadspec('c07.cpp')
    c.equiv('RecordWerResult', 'spec::RecordWerResult')
    c.equiv('RecordWer', 'spec::RecordWer')
    c.equiv('JsonLogUnigramBigramStats', 'spec::JsonLogUnigramBigramStats')


@prop('C09', 5, 'The per-sentence, per-speaker, speaker-switch and per-tag accumulations are congruent with the reference model.')
def c09(c):
    c.loadspec('c09.cpp')
    for f in ('RecordSentenceWer', 'RecordSpeakerWer', 'GetSpeakerSwitchIndices', 'RecordSpeakerSwitchWer', 'RecordTagWer'):
        c.equiv(f, 'spec::' + f)


HELP = ['isValidNgram', 'isEntityLabel']


@prop('C20', 5, 'Unigram and bigram counting is congruent with the reference model.')
def c20(c):
    c.loadspec('c20.cpp')
    for f in ('isValidNgram', 'isEntityLabel', 'get_bigrams', 'UpdateHypCorrectAndAllwords'):
        c.equiv(f, 'spec::' + f, noinline=HELP)
    c.equiv('CalculatePrecisionRecall', 'spec::CalculatePrecisionRecall', noinline=HELP, skip=('parameter 0.precision', 'parameter 0.recall'))


@prop('C22', 1, 'The casing statistics are congruent with the reference model.')
def c22(c):
    c.loadspec('c22.cpp')
    c.equiv('RecordCaseWer', 'spec::RecordCaseWer')


@prop('C18', 2, 'The rows written to the side-by-side file and the output NLP are congruent with the reference model.')
def c18(c):
    c.loadspec('c18.cpp')
    c.equiv('AddErrorGroup', 'spec::AddErrorGroup')
    c.equiv('WriteSbs', 'spec::WriteSbs')
    c.equiv('write_stitches_to_nlp', 'spec::write_stitches_to_nlp', noinline=['iequals', 'IsNoisecodeToken'])


@prop('C08', 2, 'The traversal of the best alignment and the rows built from it are congruent with the reference model.')
def c08(c):
    c.loadspec('c08.cpp')
    c.equiv('AlignmentTraversor::NextTriple', ['spec::AlignmentTraversor_::NextTriple', 'spec::AlignmentSteps_::NextTriple', 'spec::AlignmentLoop_::NextTriple'])
    c.equiv('AlignmentTraversor::Restart', 'spec::AlignmentTraversor_::Restart')
    c.equiv(c.fn('AlignmentTraversor::AlignmentTraversor', 1), c.fn('spec::AlignmentTraversor_::AlignmentTraversor_', 1), skip=('object state.currentPosInSubclass',))
    c.equiv('make_stitches', 'spec::make_stitches', noinline=['UnicodeLowercase', 'AlignmentTraversor::NextTriple'])


@prop('C19', 1, 'The consumption of reference rows and the placement of their metadata are congruent with the reference model.')
def c19(c):
    c.loadspec('c19.cpp')
    c.equiv('align_stitches_to_nlp', 'spec::align_stitches_to_nlp', noinline=['GetClassLabel'])


PIPE = ['Fstalign', 'CalculatePrecisionRecall', 'RecordWer', 'make_stitches', 'align_stitches_to_nlp', 'RecordCaseWer', 'RecordSpeakerSwitchWer',
        'RecordSpeakerWer', 'RecordTagWer', 'RecordSentenceWer', 'write_stitches_to_nlp', 'JsonLogUnigramBigramStats', 'WriteSbs',
        'GetEditDistance', 'MapContainsErrorStreaks', 'SynonymEngine::GenerateSynFromSymbolTable', 'SynonymEngine::ApplyToFst', 'Walker::walkComposed', 'Walker::Walker',
        'printFst', 'StandardCompositionFst::StandardCompositionFst', 'AdaptedCompositionFst::AdaptedCompositionFst', 'ArcSort', 'RmEpsilon', 'FstAlignOption::RegisterSymbols',
        'OneBestFstLoader::TokensSize', 'OneBestFstLoader::getToken']


# what these write is global (the JSON log) or in files: each call of them is an observable
RECORDERS = {'RecordWer', 'RecordCaseWer', 'RecordSpeakerSwitchWer', 'RecordSpeakerWer', 'RecordTagWer', 'RecordSentenceWer', 'write_stitches_to_nlp',
             'JsonLogUnigramBigramStats', 'WriteSbs'}


@prop('C23', 3, 'The alignment pipeline feeds each stage from the stage and side the reference model says.')
def c23(c):
    c.loadspec('c23.cpp')
    for f in ('Fstalign', 'HandleWer', 'HandleAlign'):
        c.equiv(f, 'spec::' + f, noinline=PIPE, opts={'events': RECORDERS})


@prop('C01', 2, 'The tally of the best path is congruent with the reference model.')
def c01(c):
    c.loadspec('c01.cpp')
    c.equiv('wer_alignment::Reverse', 'spec::wer_alignment_::Reverse')
    c.equiv('Walker::GetDetailsFromTopCandidates', 'spec::Walker_::GetDetailsFromTopCandidates', noinline=['wer_alignment::Reverse', 'isEntityLabel'])


@prop('C04', 6, 'Search order, expansion, acceptance and pruning are congruent with the reference model.')
def c04(c):
    c.loadspec('c04.cpp')
    c.equiv('shortlistComparatorSharedPtr::operator()', 'spec::shortlistComparatorSharedPtr_::operator()')
    for m in ('insert', 'removeFirst', 'size', 'prune'):
        c.equiv('PathHeap::' + m, 'spec::PathHeap_::' + m)
    c.equiv(c.fn('Walker::Walker', 0), c.fn('spec::Walker_::Walker_', 0), skip=('object state.logger', 'object state.pruningHeapSizeTarget'))
    c.equiv('Walker::enqueueIfNeeded', 'spec::Walker_::enqueueIfNeeded')
    pure = {'models': {q: pureval(q) for q in ('PathHeap::GetBestWerCandidate', 'PathHeap::size', 'Walker::GetDetailsFromTopCandidates')}}
    c.equiv('Walker::walkComposed', 'spec::Walker_::walkComposed', opts=pure, ctor=('Walker::Walker', {'heapA': '_heapA', 'heapB': '_heapB'}),
            noinline=['PathHeap::insert', 'PathHeap::removeFirst', 'PathHeap::prune'])


@prop('C02', 9, 'The arcs, states and final weights of the on-the-fly composition are congruent with the reference model.')
def c02(c):
    c.loadspec('c02.cpp')
    A, S = 'AdaptedCompositionFst::', 'spec::AdaptedCompositionFst_::'
    o = c.frames({A + 'IsEntityReacheable': ['entity_exit_states'],
                  A + 'GetOrCreateComposedState': ['composed_states', 'reversed_composed_states', 'current_composed_next_state_id']})
    for m in ('GetOrCreateComposedState', 'Start', 'Final', 'IsEntityLabel', 'IsSynonymLabel', 'SetSymbols', 'IsEntityReacheable'):
        c.equiv(A + m, S + m, noinline=[A + 'IsEntityReacheable', 'isEntityLabel', 'isSynonymLabel'], opts=o)
    c.equiv(c.fn(A + 'AdaptedCompositionFst', 3), c.fn(S + 'AdaptedCompositionFst_', 3), noinline=['isEntityLabel', 'isSynonymLabel'])
    for n in (1, 2):
        c.equiv(c.fn(A + 'DoesComposedStateExist', n), c.fn(S + 'DoesComposedStateExist', n))
    c.equiv(A + 'TryGetArcsAtState', S + 'TryGetArcsAtState', noinline=[A + 'GetOrCreateComposedState', A + 'IsEntityReacheable'], opts=o)


@prop('C03', 4, 'The edit model and the two-step composition are congruent with the reference model.')
def c03(c):
    c.loadspec('c03.cpp')
    A, S = 'StandardCompositionFst::', 'spec::StandardCompositionFst_::'
    c.equiv(c.fn(A + 'StandardCompositionFst', 3), c.fn(S + 'StandardCompositionFst_', 3), noinline=['isEntityLabel', 'printFst'])
    for m in ('Start', 'Final', 'TryGetArcsAtState'):
        c.equiv(A + m, S + m)


@prop('C10', 9, 'The records read from CTM, NLP and text inputs are congruent with the reference model.')
def c10(c):
    c.loadspec('c10.cpp')
    for f in ('read_from_disk_no_conf', 'read_from_disk_with_conf'):
        c.equiv(f, 'spec::' + f)
    c.equiv('CtmReader::read_from_disk', 'spec::CtmReader_::read_from_disk', noinline=['read_from_disk_no_conf', 'read_from_disk_with_conf'])
    c.equiv('NlpReader::read_from_disk', 'spec::NlpReader_::read_from_disk', opts={'models': {q: pureval(q) for q in ('NlpReader::GetBestLabel', 'NlpReader::GetLabelId', 'NlpReader::GetWerTags')}})
    for m in ('GetLabelId', 'GetBestLabel', 'GetWerTags'):
        c.equiv('NlpReader::' + m, 'spec::NlpReader_::' + m)
    for m in ('LoadTextFile', 'BuildFromString'):
        c.equiv('OneBestFstLoader::' + m, 'spec::OneBestFstLoader_::' + m)


@prop('C12', 12, 'The recognition and decomposition of special tokens is congruent with the reference model.')
def c12(c):
    c.loadspec('c12.cpp')
    for f in ('isEntityLabel', 'isSynonymLabel', 'IsNoisecodeToken', 'getLabelIdFromToken', 'GetLabelNameFromClassLabel', 'GetClassLabel', 'isValidNgram',
              'iequals', 'EndsWithCaseInsensitive', 'UnicodeLowercase', 'string_join', 'trim_copy'):
        c.equiv(f, 'spec::' + f)


@prop('C14', 16, 'The graphs, id lists and registered words of text, CTM and graph inputs are congruent with the reference model.')
def c14(c):
    c.loadspec('c14.cpp')
    c.equiv('FstLoader::AddSymbolIfNeeded', 'spec::AddSymbolIfNeeded')
    for k in ('CtmFstLoader', 'OneBestFstLoader', 'FstFileLoader'):
        for m in ('addToSymbolTable', 'convertToFst', 'convertToIntVector'):
            c.equiv(k + '::' + m, 'spec::%s_::%s' % (k, m), empty=k == 'FstFileLoader')
    c.equiv(c.fn('CtmFstLoader::CtmFstLoader', 2), c.fn('spec::CtmFstLoader_::CtmFstLoader_', 2))
    c.equiv(c.fn('OneBestFstLoader::OneBestFstLoader', pick=lambda f: len(f.params) == 1 and f.params[0]['t'] == 'bool'), 'spec::OneBestFstLoader_::OneBestFstLoader_')
    c.equiv(c.fn('FstFileLoader::FstFileLoader', 1), c.fn('spec::FstFileLoader_::FstFileLoader_', 1))
    c.equiv('OneBestFstLoader::getToken', 'spec::OneBestFstLoader_::getToken')
    c.equiv('OneBestFstLoader::TokensSize', 'spec::OneBestFstLoader_::TokensSize')
    c.equiv('CtmFstLoader::getToken', 'spec::CtmFstLoader_::getToken')


@prop('C24', 2, 'The reserved words, their registration and the default costs are congruent with the reference model.')
def c24(c):
    c.loadspec('c24.cpp')
    c.equiv('FstAlignOption::FstAlignOption', 'spec::FstAlignOption_::FstAlignOption_', nparams=0)
    c.equiv('FstAlignOption::RegisterSymbols', 'spec::FstAlignOption_::RegisterSymbols')


@prop('C15', 6, 'The tokens, speakers, candidates, registered words and graph of an NLP reference are congruent with the reference model.')
def c15(c):
    c.loadspec('c15.cpp')
    N, S = 'NlpFstLoader::', 'spec::NlpFstLoader_::'
    for m in ('addToSymbolTable', 'convertToFst', 'convertToIntVector', 'GetProperSymbolId'):
        c.equiv(N + m, S + m, noinline=['isEntityLabel', 'getLabelIdFromToken'])
    c.equiv(N + 'getToken', S + 'getToken')
    c.equiv(c.fn(N + 'NlpFstLoader', 6), c.fn(S + 'NlpFstLoader_', 6))


@prop('C13', 8, 'The synonym rules and the branches they add are congruent with the reference model.')
def c13(c):
    c.loadspec('c13.cpp')
    N, S = 'SynonymEngine::', 'spec::SynonymEngine_::'
    for m in ('GetKeyFromString', 'GetValuesFromStrings', 'LoadFile', 'ParseStrings', 'GenerateSynFromSymbolTable', 'ApplyToFst'):
        specs = [S + m, 'spec::SynonymEngineAt_::' + m, 'spec::SynonymEngineFind_::' + m] if m == 'ApplyToFst' else S + m
        c.equiv(N + m, specs, noinline=['trim_copy', 'SeekForward', N + 'ParseStrings'])
    c.equiv('SeekForward', 'spec::SeekForward')
    c.equiv(c.fn(N + 'SynonymEngine', 1), c.fn('spec::SynonymEngine_::SynonymEngine_', 1))


def event(q):
    """a call whose effect lies outside the values seen here: the sequence of calls is observable"""
    def m(ip, e, obj, args):
        l = LV(raw('g', 'calls to ' + q), ())
        ip.store(l, ip.ucall(q + '#seq', [ip.load(l)] + [ip.rv(x) for x in args]))
        return UNDEF
    return m


@prop('C11', 3, 'What each command line option reaches, which reader each file gets and what is run are congruent with the reference model.')
def c11(c):
    c.loadspec('c11.cpp')
    stages = ['HandleWer', 'HandleAlign', 'FstLoader::MakeReferenceLoader', 'FstLoader::MakeHypothesisLoader', 'SynonymEngine::SynonymEngine', 'SynonymEngine::LoadFile']
    c.equiv('main', 'spec::main', noinline=stages, opts={'events': stages, 'models': {'logger::InitLoggers': event('logger::InitLoggers')}})
    readers = ['NlpReader::read_from_disk', 'CtmReader::read_from_disk', 'OneBestFstLoader::LoadTextFile', 'NlpFstLoader::NlpFstLoader', 'CtmFstLoader::CtmFstLoader',
               'OneBestFstLoader::OneBestFstLoader', 'FstFileLoader::FstFileLoader', 'EndsWithCaseInsensitive']
    for f in ('MakeReferenceLoader', 'MakeHypothesisLoader'):
        c.equiv('FstLoader::' + f, 'spec::FstLoader_::' + f, noinline=readers)


@prop('C16', 300, 'The result depends on nothing but the input files and options: no hidden source, state or address order, and nothing is read before it has a value.',
      'sources of values, program-wide state, address order, definite initialisation')
def c16(c):
    r = lint.Rules(c, 'C16')
    r.sources()
    r.statics()
    r.order()
    r.initialised()


@prop('C17', 150, 'The files the program opens, and how, follow from the options that name them.',
      'effect analysis of file operations and interprocedural flow of the paths they get')
def c17(c):
    lint.files(lint.Rules(c, 'C17'))


@prop('C21', 12, 'Typestate of every file and of every pointer that is null when reading fails.',
      'typestate of streams, read results and JSON parses, with the effect of each failing branch')
def c21(c):
    lint.opened(lint.Rules(c, 'C21'))


@prop('C25', 60, 'Lifetimes of references, iterators and pointers, and where what may be null is followed.',
      'lifetimes of references, iterators and pointers (invalidation, scope, temporaries) and nullness along the call graph')
def c25(c):
    life.lifetimes(lint.Rules(c, 'C25'))
