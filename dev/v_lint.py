"""C16 / C17: sources outside the inputs, files touched"""
B = ['C16', 'C17']
M = 'main.cpp'
W = 'wer.cpp'
F = 'fstalign.cpp'
V = [
 # ---- same
 ('l-mode-trunc', 'same', B + ['C11', 'C06'], M, [('ofstream output_nlp_file(output_nlp);', 'ofstream output_nlp_file(output_nlp, std::ios::out | std::ios::trunc);')]),
 ('l-open-helper', 'same', B + ['C11'], M, [('int main(int argc, char **argv) {', 'static void write_report(const string &path) {\n  ofstream out(path);\n  out << jsonLogger::JsonLogger::getLogger().root << std::endl;\n}\n\nint main(int argc, char **argv) {'),
   ('    ofstream jsonFile;\n    jsonFile.open(output_json_log);\n    jsonFile << jsonLogger::JsonLogger::getLogger().root << std::endl;\n    jsonFile.close();', '    write_report(output_json_log);')]),
 ('l-open-lambda', 'same', B + ['C11'], M, [('    ofstream jsonFile;\n    jsonFile.open(output_json_log);\n    jsonFile << jsonLogger::JsonLogger::getLogger().root << std::endl;\n    jsonFile.close();',
   '    auto report = [](const string &path) {\n      ofstream out(path);\n      out << jsonLogger::JsonLogger::getLogger().root << std::endl;\n    };\n    report(output_json_log);')]),
 ('l-copy-path', 'same', B + ['C11'], M, [('  if (synonyms_filename.size() > 0) {\n    engine.LoadFile(synonyms_filename);', '  const string rules = synonyms_filename;\n  if (!rules.empty()) {\n    engine.LoadFile(rules);')]),
 ('l-static-const', 'same', B + ['C08', 'C10'], W, [('void WriteSbs(', 'static const std::string kColumns[] = {"ref_token", "hyp_token"};\n\nvoid WriteSbs(')]),
 ('l-elapsed-log', 'same', B, M, [('  console->info("done");', '  console->info("done at {}", time(nullptr));')]),
 ('l-elapsed-local', 'same', B, M, [('int main(int argc, char **argv) {', 'int main(int argc, char **argv) {\n  const auto started = std::chrono::steady_clock::now();'),
   ('  console->info("done");', '  const auto took = std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now() - started).count();\n  console->info("done in {}", took);')]),
 ('l-late-init', 'same', B + ['C20'], 'wer.cpp', [('void RecordWer(', 'static int picked(bool a) {\n  int x;\n  if (a) {\n    x = 1;\n  } else {\n    x = 2;\n  }\n  return x;\n}\n\nvoid RecordWer(')]),
 ('l-out-param', 'same', B, 'wer.cpp', [('void RecordWer(', 'static void set_to(int &x) { x = 3; }\nstatic int picked2() {\n  int x;\n  set_to(x);\n  return x;\n}\n\nvoid RecordWer(')]),
 # ---- bugs
 ('l-append', 'bug', ['C17'], M, [('ofstream output_nlp_file(output_nlp);', 'ofstream output_nlp_file(output_nlp, std::ios::app);')]),
 ('l-json-app', 'bug', ['C17'], M, [('jsonFile.open(output_json_log);', 'jsonFile.open(output_json_log, std::ios_base::out | std::ios_base::app);')]),
 ('l-sbs-app', 'bug', ['C17'], W, [('myfile.open(sbs_filename);', 'myfile.open(sbs_filename, ios::app);')]),
 ('l-tmp', 'bug', ['C17'], W, [('myfile.open(sbs_filename);', 'myfile.open("/tmp/sbs.txt");')]),
 ('l-suffix', 'bug', ['C17'], W, [('myfile.open(sbs_filename);', 'myfile.open(sbs_filename + ".txt");')]),
 ('l-wrong-opt', 'bug', ['C17'], M, [('jsonFile.open(output_json_log);', 'jsonFile.open(log_filename);')]),
 ('l-over-ref', 'bug', ['C17'], M, [('ofstream output_nlp_file(output_nlp);', 'ofstream output_nlp_file(ref_filename);')]),
 ('l-remove', 'bug', ['C17'], M, [('  if (!output_json_log.empty()) {', '  if (!output_json_log.empty()) {\n    ::unlink(output_json_log.c_str());')]),
 ('l-cache', 'bug', ['C17'], 'OneBestFstLoader.cpp', [('  std::ifstream stream(filename);', '  std::ifstream stream(filename + ".norm");')]),
 ('l-env', 'bug', ['C16'], M, [('  alignerOptions.numBests = numBests;', '  alignerOptions.numBests = getenv("FA_BESTS") ? 5 : numBests;')]),
 ('l-time', 'bug', ['C16'], W, [('  jsonLogger::JsonLogger::getLogger().root["wer"]["bestWER"]["wer"] =', '  jsonLogger::JsonLogger::getLogger().root["wer"]["when"] = (int)time(nullptr);\n  jsonLogger::JsonLogger::getLogger().root["wer"]["bestWER"]["wer"] =')]),
 ('l-timeout', 'bug', ['C16'], 'Walker.cpp', [('  while (heapA->size() > 0 &&', '  const auto t0 = time(nullptr);\n  while (time(nullptr) - t0 < 60 && heapA->size() > 0 &&')]),
 ('l-static-count', 'bug', ['C16'], 'FstLoader.cpp', [('  if (symbol.Find(str_value) == -1) {\n    symbol.AddSymbol(str_value);', '  static set<string> seen;\n  if (seen.insert(str_value).second) {\n    symbol.AddSymbol(str_value);')]),
 ('l-static-cache', 'bug', ['C16'], 'SynonymEngine.cpp', [('  vector<string> k;\n', '  static vector<string> k;\n')]),
 ('l-uninit', 'bug', ['C16'], 'utilities.h', [('  precision_t precision = 0.0f;\n  recall_t recall = 0.0f;\n  // map', '  precision_t precision;\n  recall_t recall;\n  // map')]),
 ('l-uninit-loop', 'bug', ['C16'], 'Walker.cpp', [('  int last1kStage = 0;', '  int last1kStage;')]),
 ('l-uninit-branch', 'bug', ['C16'], W, [('  size_t offset = 2;  // line', '  size_t offset;  // line')]),
 ('l-addr-set', 'bug', ['C16'], 'PathHeap.h', [('  set<std::shared_ptr<ShortlistEntry>, shortlistComparatorSharedPtr> heap;', '  set<std::shared_ptr<ShortlistEntry>> heap;')]),
 ('l-addr-cmp', 'bug', ['C16'], 'PathHeap.h', [('          return a->currentState < b->currentState;', '          return a.get() < b.get();')]),
 ('l-addr-op', 'bug', ['C16'], 'PathHeap.h', [('          return a->currentState < b->currentState;', '          return a < b;')]),
 ('l-addr-int', 'bug', ['C16'], 'Walker.cpp', [('    vector<StdArc> arcs_leaving_state;', '    vector<StdArc> arcs_leaving_state;\n    if (reinterpret_cast<uintptr_t>(&arcs_leaving_state) % 32 == 0) break;')]),
 ('l-shuffle', 'bug', ['C16'], 'Walker.cpp', [('    for (vector<StdArc>::iterator iter = arcs', '    std::mt19937 gen(std::random_device{}());\n    std::shuffle(arcs_leaving_state.begin(), arcs_leaving_state.end(), gen);\n    for (vector<StdArc>::iterator iter = arcs'), ('#include "Walker.h"', '#include "Walker.h"\n#include <random>')]),
 ('l-static-walk', 'bug', ['C16'], 'Walker.cpp', [('  int loopSinceLastPruning = 0;', '  static int loopSinceLastPruning = 0;')]),
]
V = [v[:2] + (' '.join(v[2]),) + v[3:] for v in V]
