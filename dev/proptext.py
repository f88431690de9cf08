T16 = 'The 16 tests that run exercise the composition classes and the edit-distance routine on a handful of tiny hand-made inputs; '

p('C01', 'Every step of the best path is tallied exactly once, on the right side',
  'Turning the best path into an alignment counts every step once: an arc without a reference word as insertion, without a hypothesis word as deletion, with different words as substitution, with equal ordinary words as correct, and special symbols not at all. '
  'Word totals, word lists, error lists and token pairs follow the steps in path order, and steps inside an entity are additionally tallied under that entity only.',
  'inputs', 'every path, with any mix of edits, entities (nested, adjacent, unclosed) and special symbols',
  T16 + 'the tally is reached by a few tests on tiny graphs without entities.',
  'src/Walker.cpp src/fstalign.h', [('back-trace and tally', 'Walker::GetDetailsFromTopCandidates, wer_alignment::Reverse')])

p('C02', 'The on-the-fly composition offers exactly the edits the edit model allows',
  'From a pair of states the on-the-fly composition offers exactly: a free match for equal words, an insertion or substitution where neither word is pinned, a deletion where nothing matched yet or the word is marked, free epsilon and entity steps, and a synonym branch only when its end can be reached by matches alone. '
  'Each arc leads to the one state that stands for its pair and costs the configured amount, and a state is final exactly when both sides are.',
  'inputs histories', 'every pair of graphs (several arcs per state, epsilon arcs, pinned words, entities, synonyms), every state and every order in which states are asked for',
  T16 + 'the composition is tested on graphs of a few states without synonyms or pinned words.',
  'src/AdaptedComposition.cpp src/AdaptedComposition.h src/IComposition.h',
  [('arc generation', 'AdaptedCompositionFst::TryGetArcsAtState, IsEntityReacheable'), ('pair numbering', 'GetOrCreateComposedState, Final, Start'),
   ('label tables', 'SetSymbols, IsEntityLabel, IsSynonymLabel')])

p('C03', 'The two-step composition implements the same edit model',
  'The two-step composition lets every ordinary word stay at no cost, be substituted, deleted or inserted at the configured cost split over both halves, and lets an entity label stay or disappear at no overall cost; special symbols are never edited. '
  'It composes the determinised reference with the reference half and the hypothesis half with the hypothesis, sorted so that they match, and exposes start, final weights and all arcs of that composition unchanged.',
  'inputs', 'every symbol table and every pair of graphs',
  T16 + 'the composition is tested on graphs of a few states.',
  'src/StandardComposition.cpp src/StandardComposition.h src/IComposition.h',
  [('edit transducers and composition', 'StandardCompositionFst::StandardCompositionFst'), ('view of the composition', 'Start, Final, TryGetArcsAtState')])

p('C04', 'The search expands, accepts and prunes exactly as documented',
  'The search expands entries shortest first, then by fewest errors, lowest cost and lowest state; it enters a state again only when not at a higher cost than before, and each entry carries its predecessor plus the arc taken (cost, word and error counts). '
  'Exactly the entries at final states become candidates, up to the requested number, and pruning runs only at its interval and drops only entries with more than 20 errors over the last one kept.',
  'inputs', 'every graph, pruning interval, heap target and number of requested candidates',
  T16 + 'the search is tested on a few tiny graphs that never reach pruning.',
  'src/Walker.cpp src/Walker.h src/PathHeap.cpp src/PathHeap.h',
  [('search loop with two heaps', 'Walker::walkComposed, enqueueIfNeeded'), ('ordered heap and pruning', 'PathHeap, shortlistComparatorSharedPtr')])

p('C05', 'The fast first pass only pins words an optimal edit script matches',
  'The quick first pass returns the unit-cost edit distance of the two token sequences and a word-to-word map taken from one optimal edit script, with every pinned pair equal on both sides and in increasing order. '
  'The map is used only when neither the pinned runs nor the configured longest error streak rule it out.',
  'inputs', 'every pair of integer token sequences, including empty and very long ones, and every streak limit',
  T16 + 'the distance routine is tested on five short pairs and its map hardly at all.',
  'src/fast-d.cpp src/fast-d.h src/fstalign.cpp',
  [('banded dynamic programme over two rows and its trace-back', 'src/fast-d.cpp GetEditDistance, GetEditDistanceOnly'),
   ('error-streak test on the map', 'src/fast-d.cpp MapContainsErrorStreaks')])

p('C06', 'Error rates, precision and recall are the defined ratios',
  'Every reported error rate is (insertions + deletions + substitutions) divided by the number of reference words, precision is correct words over hypothesis words and recall correct words over reference words. '
  'A denominator of zero gives the documented special value and never a finite wrong number.',
  'inputs', 'every combination of error counts, including zero reference words and zero hypothesis words',
  T16 + 'none of them computes a rate for an empty side.',
  'src/wer.cpp src/wer.h src/fstalign.h',
  [('rate formulas', 'src/wer.h WerResult, src/fstalign.h wer_alignment'), ('precision/recall', 'src/wer.cpp CalculatePrecisionRecall')])

p('C07', 'Every number in the JSON report is the quantity its key names',
  'For each overall, per-class, per-label, unigram and bigram entry of the JSON report, the value written under a key is the quantity that key names, taken from the best alignment. '
  'No entry is dropped, duplicated or written under another entry\'s key.',
  'inputs', 'every best alignment and every set of classes, labels and n-grams it carries',
  T16 + 'no test that runs reads the report at all.',
  'src/wer.cpp src/json_logging.cpp',
  [('report writers', 'src/wer.cpp RecordWerResult, RecordWer, JsonLogUnigramBigramStats')])

p('C08', 'Each alignment row carries the right words and the right hypothesis record',
  'Walking the best alignment yields each word pair outside an entity group and each pair inside one exactly once, in order, with groups expanded in place and labelled with their class; an empty fallback group yields one no-op. '
  'Exactly one row is made per pair; a row with a hypothesis word takes text, times and confidence from the next unused hypothesis record in order, and deletions and no-ops consume none.',
  'inputs histories', 'every best alignment (nested entity groups anywhere, including first, last and adjacent) and every kind of hypothesis source',
  T16 + 'no test that runs builds rows.',
  'src/AlignmentTraversor.cpp src/wer.cpp src/fstalign.cpp',
  [('state machine over the outer and the nested sequence', 'src/AlignmentTraversor.cpp NextTriple'), ('row construction', 'make_stitches')])

p('C09', 'Group statistics add up the rows of the group and nothing else',
  'Per-speaker, per-sentence, speaker-switch and per-tag statistics count every alignment row once, by its edit kind, in exactly the groups its metadata assigns it to: insertions without a speaker belong to the last speaker seen, sentences end at sentence punctuation, switch windows are measured in reference words, and a row counts for each of its tags. '
  'Every group reports its own totals under its own name.',
  'inputs', 'every row sequence with any metadata, any context size and any tag vocabulary',
  T16 + 'no test that runs computes group statistics.',
  'src/wer.cpp', [('group accumulators', 'src/wer.cpp RecordSentenceWer, RecordSpeakerWer, RecordSpeakerSwitchWer, RecordTagWer')])

p('C18', 'The side-by-side file and the output transcript list every row once',
  'The side-by-side file and the aligned output transcript contain one line per alignment row in row order (no-ops excepted), each with the columns its header declares, taken from that row. '
  'Insertions appear in the transcript exactly when requested, and consecutive errors are grouped into the listed error groups without losing one.',
  'inputs configurations', 'every row sequence and both settings of the insertion option',
  T16 + 'no test that runs writes either file.',
  'src/wer.cpp src/fstalign.cpp', [('row writers', 'WriteSbs, AddErrorGroup, write_stitches_to_nlp')])

p('C19', 'Each reference record is consumed by exactly the alignment rows that cover it',
  'Walking the rows and the reference records in step, every row that has a reference word is joined to the record it came from, in order, including records expanded by a synonym, an entity or a compound. '
  'Insertions join no record and shift no later one.',
  'inputs', 'every row sequence and every reference with entities, synonyms and skipped words',
  T16 + 'no test that runs joins reference records.',
  'src/fstalign.cpp', [('lock-step consumption of reference rows', 'align_stitches_to_nlp')])

p('C20', 'Unigram and bigram statistics count every token of the alignment once',
  'For every word and every pair of adjacent words, the reported correct, substituted, inserted and deleted counts are the number of occurrences in the alignment, with entity labels replaced by the words inside. '
  'Precision and recall of an n-gram use those counts only.',
  'inputs', 'every alignment, including an empty one and one made of a single edit',
  T16 + 'no test that runs counts n-grams.',
  'src/wer.cpp', [('n-gram counting', 'get_bigrams, UpdateHypCorrectAndAllwords, CalculatePrecisionRecall')])

p('C22', 'Casing statistics classify each matched word by its two casings',
  'Casing statistics classify every row that has a word on both sides, by comparing the number of capitals in the two original words (or, for a lower-case reference, whether the hypothesis has any), into true positive, false positive or false negative. '
  'Matching rows count in both reported groups, substituted rows in the second only, insertions and deletions in neither, and precision and recall follow from those counts.',
  'inputs', 'every row sequence and every casing value',
  T16 + 'no test that runs computes casing statistics.',
  'src/wer.cpp', [('case classification', 'RecordCaseWer')])

p('C23', 'Each stage of the pipeline receives the output and side it is meant to',
  'A run builds the reference graph from the reference and the hypothesis graph from the hypothesis, applies synonyms to the reference only, aligns them with the configured method, and returns the alignment with the lowest error rate. '
  'Statistics, rows and output files are all derived from that one alignment, and each optional output is produced exactly when its option asks for it.',
  'inputs configurations', 'every pair of inputs and every combination of options',
  T16 + 'the pipeline function and its two callers are run by no test that runs here.',
  'src/fstalign.cpp src/fstalign.h', [('pipeline', 'Fstalign, HandleWer, HandleAlign')])

p('C10', 'Each input file is read into exactly the records it holds',
  'Every line of a CTM or NLP file yields one record, in file order, with each column in the field it names: the CTM confidence is read when the first line has six columns and is 1 otherwise, and optional NLP columns stay empty when absent. '
  'An entity label is the first entry of the tag list, its id the part before the colon, and WER tags are all quoted entries of their list; a text transcript is its whitespace-separated words, and an unreadable one is an error.',
  'inputs', 'every file content, with any number of columns, tags and labels',
  T16 + 'no test that runs reads an input file.',
  'src/Ctm.cpp src/Nlp.cpp src/OneBestFstLoader.cpp', [('column to field mapping', 'read_from_disk_no_conf, read_from_disk_with_conf, CtmReader::read_from_disk, NlpReader::read_from_disk'),
  ('labels and tags', 'NlpReader::GetBestLabel, GetLabelId, GetWerTags'), ('text', 'OneBestFstLoader::LoadTextFile, BuildFromString')])

p('C11', 'Every option reaches the stage it documents, and the files named choose what is read and written',
  'Each command line option sets exactly the setting it documents, with its documented default when absent; a reference or hypothesis is read by the reader its file extension (in any case) names, as plain text otherwise, with its own side file when one is given. '
  'wer scores and align writes a transcript, each with the files and settings given, optional outputs are made only when asked for, and an invalid command line or an align without an output path, an nlp reference or a ctm hypothesis ends with a failing status instead of being attempted.',
  'inputs configurations', 'every command line: every combination of options, values, file names and extensions',
  T16 + 'no test that runs starts the command line program.',
  'src/main.cpp src/fstalign.h', [('command line', 'main'), ('choice of reader', 'MakeReferenceLoader, MakeHypothesisLoader')])

p('C12', 'Special tokens are told from words, and taken apart, by one set of rules',
  'A token is an entity label when it starts with three underscores, a synonym label when it also contains _SYN_, and a noise code when it starts with < and its first > is its last character. '
  'The id and the name of an entity label are the parts between the underscores before and after the first inner one, a label is formed from id:NAME by the same rule, n-grams with a special token are rejected, case is ignored exactly where a comparison says so, and lower-casing is Unicode lower-casing.',
  'inputs', 'every token, including empty, short and non-ASCII ones',
  T16 + 'they see a few words and one entity label.',
  'src/utilities.cpp', [('token rules', 'isEntityLabel, isSynonymLabel, IsNoisecodeToken, getLabelIdFromToken, GetLabelNameFromClassLabel, GetClassLabel, isValidNgram'),
  ('text helpers', 'iequals, EndsWithCaseInsensitive, UnicodeLowercase, string_join')])

p('C13', 'Synonym rules add one labelled branch per alternative, and only where the rule matches',
  'A rule line (words | alternative ; alternative) defines alternatives for a word sequence; blank, comment and malformed lines are skipped and the first definition wins. Words ending in a dash can be said without it and hyphenated words can be said apart (and back), unless switched off. '
  'Wherever a path of the reference graph reads the words of a rule, each alternative becomes one branch from its start to each of its ends, enclosed in its own label ___N_SYN_a-b___ (a words replaced by b), and nothing that was in the graph is lost.',
  'inputs configurations', 'every rule file, reference graph (with branches and self loops), symbol table and option setting',
  T16 + 'the synonym code is not part of the test build.',
  'src/SynonymEngine.cpp', [('rules', 'SynonymEngine::LoadFile, ParseStrings, GetKeyFromString, GetValuesFromStrings, GenerateSynFromSymbolTable'), ('branches', 'SynonymEngine::ApplyToFst, SeekForward')])

p('C14', 'A text or CTM transcript becomes a chain of its words, each under its own id',
  'A text or CTM transcript becomes a graph with one arc per word in order, labelled with the id of that word (lower-cased unless case is kept), one initial and one final state; a word costs one when the fast pass marked it and nothing otherwise. '
  'Every word is registered in the symbol table once, a list of ids has one entry per word in order with the unknown-word id for unregistered ones, and a graph file is used as it was read.',
  'inputs configurations', 'every transcript, symbol table, fast-pass map (including none) and both case settings',
  T16 + 'they build graphs by hand or from one-line texts without a map.',
  'src/Ctm.cpp src/OneBestFstLoader.cpp src/FstFileLoader.cpp src/FstLoader.cpp', [('loaders', 'CtmFstLoader, OneBestFstLoader, FstFileLoader: addToSymbolTable, convertToFst, convertToIntVector'), ('registration', 'FstLoader::AddSymbolIfNeeded')])

p('C15', 'An NLP reference becomes its words, with each labelled run replaced by its alternatives',
  'Each unlabelled NLP row gives one token (lower-cased unless case is kept) with its speaker, each run of rows with the same label one token for the label, and each punctuation mark one token when punctuation is kept; the words of a labelled run join the alternatives of its label, and tags get their names from the sidecar. '
  'In the reference graph a label is followed by one path per alternative and by the label again, pins from the fast pass apply to the token at that position, and every word that can occur is registered.',
  'inputs configurations', 'every sequence of rows, normalisation and sidecar file, map and combination of the case, punctuation and label settings',
  T16 + 'no test that runs reads an NLP reference.',
  'src/Nlp.cpp', [('rows to tokens and alternatives', 'NlpFstLoader::NlpFstLoader'), ('reference graph', 'NlpFstLoader::convertToFst, convertToIntVector, GetProperSymbolId'), ('registration', 'NlpFstLoader::addToSymbolTable')])

p('C16', 'The result is a function of the input files and options alone',
  'Two runs over the same input files with the same options give the same results: nothing but log messages depends on a clock, a random source, the process, its environment or another thread, nothing is ordered or chosen by the address of an object, and every number, flag and pointer has a value before it is read. '
  'Nothing is carried from one call to the next except in the objects the caller passes: the only program-wide state is the loggers and the JSON report.',
  'inputs histories', 'every input, every sequence of calls in one process, every address layout and initial content of memory',
  T16 + 'one run on one machine does not show what a value would be on another day, under another memory layout or after another call.',
  'src/main.cpp src/fstalign.cpp src/wer.cpp src/Walker.cpp src/PathHeap.cpp', [('program-wide state', 'src/logging.cpp, src/json_logging.h'), ('initial values', 'fields of Path, FstAlignOption, AlignerOptions, WerResult; locals of every function')])

p('C17', 'Files are written only where an output option names them, and read only where an input option does',
  'The only files written are those named by --output-nlp, --output-sbs, --log and --json-log, each opened afresh with earlier content dropped (a log is continued), and nothing else is created, removed, renamed or executed. '
  'The only files read are those named by the input options: reference, hypothesis, their JSON side files, the WER sidecar, symbols and synonyms; an input file is never opened for writing.',
  'inputs configurations', 'every command line and every call path from the command line to a file operation',
  T16 + 'no test that runs starts the command line program or looks at the files around it.',
  'src/main.cpp src/fstalign.cpp src/wer.cpp src/SynonymEngine.cpp', [('outputs', 'main (--output-nlp, --json-log), HandleWer, HandleAlign, WriteSbs, logger::InitLoggers'), ('inputs', 'LoadTextFile, CtmReader, NlpReader, FstFileLoader, SynonymEngine::LoadFile, fstalign.cpp (symbols)')])

p('C21', 'A file that cannot be opened or read stops the run with an error',
  'A file an option names that cannot be opened or read, or a JSON side file that does not parse, ends the run with an error (an exception or a failing exit status) instead of counting as empty, and no null result of a failed read is used. '
  'An output file that cannot be opened is an error too, never reported as success.',
  'inputs fault_sequences', 'every file the program opens and every way opening, reading or parsing it fails',
  T16 + 'they only name files that exist and can be read.',
  'src/main.cpp src/fstalign.cpp src/Ctm.cpp src/Nlp.cpp src/OneBestFstLoader.cpp src/FstFileLoader.cpp src/SynonymEngine.cpp src/wer.cpp', [('opening and reading', 'every std::ifstream, std::ofstream, VectorFst::Read, SymbolTable::ReadText and Json::Reader::parse of the program')])

p('C25', 'No reference, iterator or pointer outlives what it points to, and null is never followed',
  'A reference, iterator or pointer is never used after the container it points into was changed in a way that invalidates it, nor after the local or temporary it refers to has ended, and none is kept in an object or returned beyond that end. '
  'The result of a search, a checked cast or a call that can give null, and any pointer that may be null or was moved from, is followed only where it was tested first.',
  'inputs histories', 'every path through every function of the program, for all inputs and all contents of the containers',
  T16 + 'a dangling reference usually still reads the right bytes, and the paths on which a search fails or a cast gives null are not run.',
  'src/main.cpp src/fstalign.cpp src/Walker.cpp src/PathHeap.cpp src/AlignmentTraversor.cpp src/SynonymEngine.cpp src/AdaptedComposition.cpp src/StandardComposition.cpp src/wer.cpp src/Nlp.cpp src/Ctm.cpp', [('containers and pointers', 'every container operation, reference, iterator, search, checked cast and smart pointer of the program')])

p('C24', 'Every reserved word is registered once, under the id the aligner uses for it',
  'Registering the reserved words gives each of epsilon, out-of-vocabulary, insertion, deletion, substitution, inaudible, silence and unknown its own existing id, or a new one if it has none, with epsilon first, and remembers it under its own name. '
  'The default costs are 0 for a match, 3 for an insertion or a deletion and 4 for a substitution.',
  'inputs', 'every symbol table, empty or with any of the reserved words already present under any id',
  T16 + 'they register into an empty table only.',
  'src/utilities.h', [('reserved words', 'FstAlignOption::FstAlignOption, RegisterSymbols')])

NA = {}
p('C90', 'The returned alignment has the globally lowest weighted error rate',
  'Among all alignments the two graphs admit under the configured edit costs, the one returned has the lowest cost.',
  'inputs', 'every pair of graphs and every pruning setting',
  T16 + 'global optimality quantifies over all alignments of all graphs.',
  'src/Walker.cpp src/PathHeap.cpp', [('best-first search with a pruned heap', 'Walker::walkComposed, PathHeap')])
NA['C90'] = ('Optimality of a pruned best-first search is a statement about the runtime contents of the heap over all paths of all graphs (and pruning deliberately gives it up); '
             'no dataflow argument over the source bounds it. The local obligations it rests on (cost of each step, order of the heap, what is enqueued and what is accepted) are decided in their own properties.')
p('C91', 'Every run terminates within memory proportional to its inputs',
  'For every pair of finite inputs the alignment terminates, and its peak memory is bounded by a function of the input sizes and the pruning target.',
  'inputs configurations', 'every pair of inputs and every heap pruning target',
  T16 + 'termination and memory quantify over all inputs.',
  'src/Walker.cpp src/PathHeap.cpp', [('heap pruning', 'PathHeap::prune')])
NA['C91'] = ('The number of search steps depends on runtime cost distributions and on cycles in the supplied graphs; no sound static bound is in reach of the analyses built here.')
