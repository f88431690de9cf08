# seeded bugs of the whole-program rules: hidden state and values (C16), files touched (C17), files that cannot be opened (C21)
g_ = {}
exec(open("/verif/dev/seeds3.py").read(), g_)
FILES = g_['FILES']
NLP = r'''
printf 'token|speaker|ts|endTs|punctuation|case|tags\nalpha|1|||||[]\nbeta|1|||||[]\ngamma|2|||||[]\ndelta|2|||||[]\n' > ref.nlp
'''
S = [
 dict(id='s23', prop='C16', needs='a hypothesis without timings (plain text) and --output-nlp: the timings are never assigned, and what they hold depends on the earlier contents of the memory',
      breaks='the timings of words of a plain text hypothesis are whatever the memory held before',
      edits=[('src/fstalign.cpp', '''    stitches.emplace_back();
    Stitching &part = stitches.back();
''', '''    Stitching blank;
    stitches.push_back(blank);
    Stitching &part = stitches.back();
''')],
      files=FILES, srcs=['src/fstalign.cpp'], flags='-ftrivial-auto-var-init=pattern', demo={'sh': NLP + r'''
printf 'alpha beta gamma delta\n' > hyp.txt
"$F" wer --ref ref.nlp --hyp hyp.txt --output-nlp out.nlp > o.txt 2>&1 || fail "run $(tail -3 o.txt)"
[ "$(wc -l < out.nlp)" = 5 ] || fail "rows: $(cat out.nlp)"
tail -n +2 out.nlp | while IFS='|' read -r tok spk ts end rest; do
  [ "$ts" = 0.0000 ] && [ "$end" = 0.0000 ] || { echo "timing of a word that has none: $tok|$spk|$ts|$end"; touch bad; }
done
[ -e bad ] && exit 1
exit 0
'''}),
 dict(id='s24', prop='C16', needs='two reports in one process, the first with a tag the second does not have',
      breaks='tag statistics are carried over from one report to the next',
      edits=[('src/wer.cpp', '''  logger->set_level(spdlog::level::info);
  std::map<std::string, WerResult> wer_results;

  for (const auto &stitch : stitches) {
    if (!stitch.nlpRow.wer_tags.empty()) {''', '''  logger->set_level(spdlog::level::info);
  static std::map<std::string, WerResult> wer_results;

  for (const auto &stitch : stitches) {
    if (!stitch.nlpRow.wer_tags.empty()) {''')],
      files={'strtk/strtk.hpp': FILES['strtk/strtk.hpp']}, srcs=['src/SynonymEngine.cpp'], demo=r'''
#include "wer.h"
#include <cstdio>
int main() {
  logger::InitLoggers("");
  auto &root = jsonLogger::JsonLogger::getLogger().root;
  auto mk = [](const char *tag, const char *comment) {
    Stitching s{};
    s.reftk = "a"; s.hyptk = "a"; s.classLabel = TK_GLOBAL_CLASS; s.comment = comment;
    WerTagEntry e; e.tag_id = tag; e.entity_type = "";
    s.nlpRow.wer_tags.push_back(e);
    return s;
  };
  std::vector<Stitching> one{mk("x", ""), mk("y", "del")}, two{mk("x", "")};
  RecordTagWer(two);
  std::string want = root["wer"]["wer_tag"].toStyledString();
  root.clear();
  RecordTagWer(one);
  root.clear();
  RecordTagWer(two);
  std::string got = root["wer"]["wer_tag"].toStyledString();
  if (got != want) { printf("the second report differs:\n%s\n%s\n", want.c_str(), got.c_str()); return 1; }
  return 0;
}
'''),
 dict(id='s25', prop='C17', needs='a side-by-side path at which a longer file exists already',
      breaks='the side-by-side report is written over the start of an existing file, whose remainder stays',
      edits=[('src/wer.cpp', '  myfile.open(sbs_filename);\n', '  myfile.open(sbs_filename, std::ifstream(sbs_filename).good() ? ios::in | ios::out : ios::out);\n')],
      files=FILES, demo={'sh': r'''
printf 'alpha beta gamma\n' > ref.txt
printf 'alpha gamma\n' > hyp.txt
run() { "$F" wer --ref ref.txt --hyp hyp.txt --output-sbs "$1" > o.txt 2>&1 || fail "run $(tail -3 o.txt)"; }
run fresh.txt
for i in $(seq 400); do echo "old line $i"; done > old.txt
run old.txt
cmp fresh.txt old.txt || fail "earlier content is left in the report: $(wc -l < old.txt) lines"
'''}),
 dict(id='s26', prop='C17', needs='align with an output path that does not end in .nlp',
      breaks='align writes to a file of another name than the one given',
      edits=[('src/main.cpp', '    ofstream output_nlp_file(output_nlp);\n', '    ofstream output_nlp_file(EndsWithCaseInsensitive(output_nlp, ".nlp") ? output_nlp : output_nlp + ".nlp");\n')],
      files=FILES, demo={'sh': NLP + r'''
printf 'r 1 0.0 0.2 alpha\nr 1 0.2 0.2 beta\nr 1 0.5 0.2 gamma\nr 1 0.8 0.2 delta\n' > hyp.ctm
mkdir out
"$F" align --ref ref.nlp --hyp hyp.ctm --output-nlp out/a.txt > o.txt 2>&1 || fail "run $(tail -3 o.txt)"
"$F" align --ref ref.nlp --hyp hyp.ctm --output-nlp out/b.nlp > o.txt 2>&1 || fail "run $(tail -3 o.txt)"
[ "$(ls out | tr '\n' ' ')" = "a.txt b.nlp " ] || fail "files written: $(ls out | tr '\n' ' ')"
'''}),
 dict(id='s27', prop='C21', needs='a synonym file that does not exist',
      breaks='a synonym file that cannot be opened is taken as one without rules',
      edits=[('src/SynonymEngine.cpp', '''  if (!input.is_open()) throw std::runtime_error("Cannot open input file");

  vector<string> lines;
  string s;
  while (std::getline(input, s)) {
    lines.push_back(s);
  }
''', '''  vector<string> lines;
  string s;
  while (std::getline(input, s)) {
    lines.push_back(s);
  }
  if (!input.eof() && lines.size() > 0) throw std::runtime_error("Cannot open input file");
''')],
      files=FILES, demo={'sh': r'''
printf 'i am going to go\n' > ref.txt
printf 'i am gonna go\n' > hyp.txt
printf 'going to | gonna\n' > syn.txt
"$F" wer --ref ref.txt --hyp hyp.txt --syn syn.txt > o.txt 2>&1 || fail "run $(tail -3 o.txt)"
"$F" wer --ref ref.txt --hyp hyp.txt --syn missing.txt > o.txt 2>&1 && fail "a missing synonym file is accepted"
exit 0
'''}),
 dict(id='s28', prop='C21', needs='a transcript path that cannot be opened',
      breaks='a transcript that cannot be opened scores as an empty one',
      edits=[('src/OneBestFstLoader.cpp', '''  if (!stream.is_open()) throw std::runtime_error("Cannot open input file");

  std::copy(''', '''  if (stream.bad()) throw std::runtime_error("Cannot open input file");

  std::copy(''')],
      files=FILES, demo={'sh': r'''
printf 'alpha beta\n' > ref.txt
printf 'alpha\n' > hyp.txt
"$F" wer --ref ref.txt --hyp hyp.txt > o.txt 2>&1 || fail "run $(tail -3 o.txt)"
"$F" wer --ref ref.txt --hyp missing.txt --json-log log.json > o.txt 2>&1 && fail "a missing hypothesis is scored: $(tr -d ' \t\n' < log.json | grep -o '"numErrors":[0-9]*' | head -1)"
exit 0
'''}),
]
