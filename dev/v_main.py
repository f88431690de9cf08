M = 'main.cpp'
JS = '''  Json::Value obj;
  if (!json_norm_filename.empty()) {
    console->info("reading json norm info from {}", json_norm_filename);
    ifstream ifs(json_norm_filename);

    Json::CharReaderBuilder builder;
    builder["collectComments"] = false;

    JSONCPP_STRING errs;
    Json::parseFromStream(builder, ifs, &obj, &errs);

    console->info("The json we just read [{}] has {} elements from its root", json_norm_filename, obj.size());
  } else {
    stringstream ss;
    ss << "{}";

    Json::CharReaderBuilder builder;
    JSONCPP_STRING errs;
    Json::parseFromStream(builder, ss, &obj, &errs);
  }
  Json::Value wer_sidecar_obj;
  if (!wer_sidecar_filename.empty()) {
    console->info("reading wer sidecar info from {}", wer_sidecar_filename);
    ifstream ifs(wer_sidecar_filename);

    Json::CharReaderBuilder builder;
    builder["collectComments"] = false;

    JSONCPP_STRING errs;
    Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs);

    console->info("The json we just read [{}] has {} elements from its root", wer_sidecar_filename, wer_sidecar_obj.size());
  } else {
    stringstream ss;
    ss << "{}";

    Json::CharReaderBuilder builder;
    JSONCPP_STRING errs;
    Json::parseFromStream(builder, ss, &wer_sidecar_obj, &errs);
  }
'''
HEAD = '''std::unique_ptr<FstLoader> FstLoader::MakeReferenceLoader('''
OPTS = '''  AlignerOptions alignerOptions;
  alignerOptions.speaker_switch_context_size = speaker_switch_context_size;
  alignerOptions.levenstein_first_pass = !disable_approximate_alignment;
  alignerOptions.numBests = numBests;
  alignerOptions.levenstein_maximum_error_streak = levenstein_maximum_error_streak;
  alignerOptions.pr_threshold = pr_threshold;
  alignerOptions.record_case_stats = record_case_stats;
  alignerOptions.symbols_filename = symbols_filename;
  alignerOptions.composition_approach = composition_approach;
'''
V = [
 ('m-jsonhelper', 'same', 'C11', M, [(HEAD, '''static Json::Value ReadSidecar(const std::string &path, const char *what) {
  auto console = logger::GetLogger("console");
  Json::Value parsed;
  Json::CharReaderBuilder builder;
  JSONCPP_STRING errors;
  if (path.empty()) {
    std::istringstream empty("{}");
    Json::parseFromStream(builder, empty, &parsed, &errors);
    return parsed;
  }
  console->info("reading {} info from {}", what, path);
  std::ifstream input(path);
  builder["collectComments"] = false;
  Json::parseFromStream(builder, input, &parsed, &errors);
  console->info("The json we just read [{}] has {} elements from its root", path, parsed.size());
  return parsed;
}

''' + HEAD), (JS, '''  Json::Value obj = ReadSidecar(json_norm_filename, "json norm");
  Json::Value wer_sidecar_obj = ReadSidecar(wer_sidecar_filename, "wer sidecar");
''')]),
 ('m-jsonhelper-ss', 'same', 'C11', M, [(HEAD, '''static Json::Value ReadSidecar(const std::string &path) {
  Json::Value parsed;
  Json::CharReaderBuilder builder;
  JSONCPP_STRING errors;
  if (!path.empty()) {
    std::ifstream input(path);
    builder["collectComments"] = false;
    Json::parseFromStream(builder, input, &parsed, &errors);
  } else {
    std::stringstream empty;
    empty << "{}";
    Json::parseFromStream(builder, empty, &parsed, &errors);
  }
  return parsed;
}

''' + HEAD), (JS, '''  const Json::Value obj = ReadSidecar(json_norm_filename);
  const Json::Value wer_sidecar_obj = ReadSidecar(wer_sidecar_filename);
''')]),
 ('m-opts-helper', 'same', 'C11', M, [(OPTS, '''  AlignerOptions alignerOptions;
  alignerOptions.composition_approach = composition_approach;
  alignerOptions.symbols_filename = std::move(symbols_filename);
  alignerOptions.record_case_stats = record_case_stats;
  alignerOptions.pr_threshold = pr_threshold;
  alignerOptions.levenstein_first_pass = disable_approximate_alignment ? false : true;
  alignerOptions.levenstein_maximum_error_streak = levenstein_maximum_error_streak;
  alignerOptions.numBests = numBests;
  alignerOptions.speaker_switch_context_size = speaker_switch_context_size;
''')]),
 ('m-optsearly', 'same', 'C11', M, [('  string symbols_filename = "";\n', '  AlignerOptions alignerOptions;\n  string symbols_filename = "";\n'), ('  AlignerOptions alignerOptions;\n  alignerOptions.speaker', '  alignerOptions.speaker')]),
 ('m-loaderorder-lambda', 'same', 'C11', M, [('  for (auto &c : {get_wer, get_alignment}) {', '  const auto addCommonOptions = [&](CLI::App *c) {'), ('''                  "Desired composition logic. Choices are 'standard' or 'adapted'");
  }
''', '''                  "Desired composition logic. Choices are 'standard' or 'adapted'");
  };
  addCommonOptions(get_wer);
  addCommonOptions(get_alignment);
''')]),
 ('m-vector', 'same', 'C11', M, [('for (auto &c : {get_wer, get_alignment}) {', 'std::vector<CLI::App *> subcommands{get_wer, get_alignment};\n  for (CLI::App *c : subcommands) {')]),
 ('m-syn-empty', 'same', 'C11', M, [('if (synonyms_filename.size() > 0) {', 'if (!synonyms_filename.empty()) {')]),
 ('m-ext-helper', 'same', 'C11', M, [('  if (EndsWithCaseInsensitive(ref_filename, string(".nlp"))) {', '  const bool is_nlp = EndsWithCaseInsensitive(ref_filename, ".nlp");\n  const bool is_ctm = EndsWithCaseInsensitive(ref_filename, ".ctm");\n  if (is_nlp) {'), ('} else if (EndsWithCaseInsensitive(ref_filename, string(".ctm"))) {', '}\n  if (is_ctm) {')]),
 ('m-ext-tolower', 'same', 'C11', M, [('    auto vec = nlpReader.read_from_disk(ref_filename);\n    return std::make_unique<NlpFstLoader>(vec,', '    return std::make_unique<NlpFstLoader>(nlpReader.read_from_disk(ref_filename),')]) if False else
 ('m-new', 'same', 'C11', M, [('return std::make_unique<FstFileLoader>(ref_filename);', 'return std::unique_ptr<FstLoader>(new FstFileLoader(ref_filename));')]),
 ('m-jsonwrite', 'same', 'C11', M, [('''    ofstream jsonFile;
    jsonFile.open(output_json_log);
    jsonFile << jsonLogger::JsonLogger::getLogger().root << std::endl;
    jsonFile.close();
''', '''    ofstream jsonFile(output_json_log);
    jsonFile << jsonLogger::JsonLogger::getLogger().root << "\\n";
''')]),
 ('m-switch', 'same', 'C11', M, [('''  } else if (command == "align") {
    if (output''', '''  }
  if (command == "align") {
    if (output'''), ('''  } else {
    console->error("The command''', '''  } else if (command != "wer") {
    console->error("The command''')]),
 ('m-nobool', 'same', 'C11', M, [('if (app.get_subcommands().size() == 0) {', 'if (app.get_subcommands().empty()) {')]),
 ('mb-swap', 'bug', 'C11', M, [('c->add_flag("--disable-cutoffs", disable_cutoffs,', 'c->add_flag("--disable-cutoffs", disable_hyphen_ignore,')]),
 ('mb-neg', 'bug', 'C11', M, [('= !disable_approximate_alignment;', '= disable_approximate_alignment;')]),
 ('mb-default', 'bug', 'C11', M, [('int numBests = 100;', 'int numBests = 10;')]),
 ('mb-lost', 'bug', 'C11', M, [('  alignerOptions.pr_threshold = pr_threshold;\n', '')]),
 ('mb-only-wer', 'bug', 'C11', M, [('c->add_option("--symbols"', 'get_wer->add_option("--symbols"')]),
 ('mb-args', 'bug', 'C11', M, [('alignerOptions, add_inserts_nlp, use_case);', 'alignerOptions, use_case, add_inserts_nlp);')]),
 ('mb-paths', 'bug', 'C11', M, [('engine, output_sbs, output_nlp, align', 'engine, output_nlp, output_sbs, align')]),
 ('mb-hypref', 'bug', 'C11', M, [('HandleWer(*ref, *hyp,', 'HandleWer(*hyp, *ref,')]),
 ('mb-hyplabels', 'bug', 'C11', M, [('hyp_empty_json, false, use', 'hyp_empty_json, true, use')]),
 ('mb-sidecar', 'bug', 'C11', M, [('(vec, obj, wer_sidecar_obj, true', '(vec, wer_sidecar_obj, obj, true')]),
 ('mb-ext', 'bug', 'C11', M, [('(hyp_filename, string(".ctm"))', '(hyp_filename, string("ctm"))')]),
 ('mb-case', 'bug', 'C11', M, [('auto hypOneBest = std::make_unique<OneBestFstLoader>(use_case);', 'auto hypOneBest = std::make_unique<OneBestFstLoader>(false);')]),
 ('mb-synopts', 'bug', 'C11', M, [('  SynonymEngine engine(syn_opts);\n', '  SynonymOptions defaults;\n  SynonymEngine engine(defaults);\n')]),
 ('mb-json-early', 'bug', 'C11', M, [('if (!output_json_log.empty()) {', 'if (!output_json_log.empty() && command == "align") {')]),
 ('mb-nullcheck', 'bug', 'C11', M, [('nlpRef == nullptr || ctmHyp == nullptr', 'nlpRef == nullptr && ctmHyp == nullptr')]),
 ('mb-version', 'bug', 'C11', M, [('bool version = false;', 'bool version;')]),
 ('mb-refpunct', 'bug', 'C11', M, [('json_norm_filename, use_punctuation, use_case, !symbols', 'json_norm_filename, use_case, use_punctuation, !symbols')]),
 ('mb-optinit', 'bug', 'C11', 'fstalign.h', [('int heapPruningTarget = 20;', 'int heapPruningTarget = 2;')]),
]
