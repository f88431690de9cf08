PRE = '''#include <cstdio>
#include <cstdlib>
#include "fstalign.h"
#include "wer.h"
#include "fast-d.h"
#include "json_logging.h"
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\\n", #c, __LINE__); exit(1); } } while (0)
'''
ROW = '''static Stitching row(std::string ref, std::string hyp, std::string comment, std::string spk = "", std::string punct = "") {
  Stitching s; s.classLabel = TK_GLOBAL_CLASS; s.reftk = ref; s.hyptk = hyp; s.comment = comment; s.hyp_orig = hyp;
  s.nlpRow.token = ref; s.nlpRow.speakerId = spk; s.nlpRow.punctuation = punct; return s; }
'''
S = [
 dict(id='s01', prop='C05', needs='a map whose longest run of unpinned words is split by one pinned word, each part under the cutoff',
      breaks='runs of unpinned words are added up across pinned words, so a good map is rejected',
      edits=[('src/fast-d.cpp', '''    } else if (bad_match_seq_cnt > streak_cutoff) {
      return true;
    } else {
      bad_match_seq_cnt = 0;
    }''', '''    } else if (bad_match_seq_cnt > streak_cutoff) {
      return true;
    } else if (x + 1 < map.size() && map[x + 1] > 0) {
      bad_match_seq_cnt = 0;
    }''')],
      demo=PRE + '''
int main() {
  CHECK(!MapContainsErrorStreaks({-1, -1, 1, -1, -1, 1, 1, 1}, 3));
  CHECK(MapContainsErrorStreaks({-1, -1, -1, -1, 1, -1, -1, 1, 1, 1}, 3));
  CHECK(!MapContainsErrorStreaks({-1, -1, -1, 1, 1, -1, 1, 1}, 3));
  CHECK(!MapContainsErrorStreaks({}, 3));
  puts("ok");
}
'''),
 dict(id='s02', prop='C07', needs='an alignment with two entity groups of one class, one with substitutions',
      breaks='class totals count the substitutions of the last group only',
      edits=[('src/wer.cpp', 'class_results[label].substitutions += a.substitutions;', 'class_results[label].substitutions = a.substitutions;')],
      demo=PRE + '''
int main() {
  wer_alignment t; t.classLabel = TK_GLOBAL_CLASS; t.numWordsInReference = 4; t.insertions = t.deletions = 0; t.substitutions = 2;
  int sub[3] = {2, 1, 0};
  for (int i = 0; i < 3; i++) {
    wer_alignment l; l.classLabel = "___" + std::to_string(i) + "_DATE___"; l.numWordsInReference = 2; l.insertions = i; l.deletions = 0; l.substitutions = sub[i];
    t.label_alignments.push_back(l);
  }
  RecordWer(t);
  Json::Value c = jsonLogger::JsonLogger::getLogger().root["wer"]["classWER"]["DATE"];
  CHECK(c["substitutions"].asInt() == 3);
  CHECK(c["insertions"].asInt() == 3);
  CHECK(c["numErrors"].asInt() == 6);
  CHECK(c["numWordsInReference"].asInt() == 6);
  puts("ok");
}
'''),
 dict(id='s03', prop='C09', needs='a speaker change after a segment that contains a substitution',
      breaks='the substitutions of a speaker segment are counted again for the next speaker',
      edits=[('src/wer.cpp', '''        deletions = 0;
        substitutions = 0;
        num_words_in_reference = 0;
      }
      last_speaker = speaker_id;''', '''        deletions = 0;
        num_words_in_reference = 0;
      }
      last_speaker = speaker_id;''')],
      demo=PRE + ROW + '''
int main() {
  std::vector<Stitching> v = {row("a", "a", "", "1"), row("b", "x", "sub(x)", "1"), row(INS, "q", "ins"), row("c", "c", "", "2"), row("d", DEL, "del", "2"), row("e", "e", "", "1")};
  RecordSpeakerWer(v);
  Json::Value s = jsonLogger::JsonLogger::getLogger().root["wer"]["speakerWER"];
  CHECK(s["1"]["substitutions"].asInt() == 1); CHECK(s["1"]["insertions"].asInt() == 1); CHECK(s["1"]["deletions"].asInt() == 0);
  CHECK(s["1"]["numWordsInReference"].asInt() == 3);
  CHECK(s["2"]["substitutions"].asInt() == 0); CHECK(s["2"]["deletions"].asInt() == 1); CHECK(s["2"]["numWordsInReference"].asInt() == 2);
  puts("ok");
}
'''),
 dict(id='s04', prop='C18', needs='an alignment that ends in an error group without hypothesis words',
      breaks='the last error group is missing from the side-by-side file when it only holds deletions',
      edits=[('src/wer.cpp', '''  // add final group (if any)
  if (line_err > 0) {''', '''  // add final group (if any)
  if (line_err > 0 && !hyp_err.empty()) {''')],
      demo=PRE + ROW + '''#include <fstream>
#include <sstream>
int main() {
  wer_alignment t;
  std::vector<Stitching> v = {row("a", "x", "sub(x)"), row("b", "b", ""), row("c", DEL, "del"), row("d", DEL, "del")};
  WriteSbs(t, v, "sbs.txt");
  std::ifstream in("sbs.txt"); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str();
  CHECK(s.find("a <-> x") != std::string::npos);
  CHECK(s.find("c d <-> ***") != std::string::npos);
  puts("ok");
}
'''),
 dict(id='s05', prop='C20', needs='a reporting threshold equal to the number of occurrences of a word',
      breaks='words that occur exactly as often as the threshold are dropped from the unigram statistics',
      edits=[('src/wer.cpp', '    if ((correct + ins + del + subst_fp + subst_fn) >= threshold) {\n      topAlignment.unigram_stats', '    if ((correct + ins + del + subst_fp + subst_fn) > threshold) {\n      topAlignment.unigram_stats')],
      demo=PRE + '''
int main() {
  wer_alignment t; t.classLabel = TK_GLOBAL_CLASS; t.numWordsInReference = 3; t.insertions = t.deletions = t.substitutions = 0;
  t.tokens = {{"a", "a"}, {"b", "b"}, {"a", "a"}};
  CalculatePrecisionRecall(t, 2);
  bool a = false, b = false;
  for (auto &u : t.unigram_stats) { if (u.first == "a") { a = true; CHECK(u.second.correct == 2); } if (u.first == "b") b = true; }
  CHECK(a && !b);
  puts("ok");
}
'''),
 dict(id='s06', prop='C22', needs='a substituted row whose reference word starts with a capital letter',
      breaks='the first letter of the reference word is not considered when the casing of a substituted word is classified',
      edits=[('src/wer.cpp', '''        for (int i = 0; i < ref.size(); i++) {
          if (isupper(ref[i])) ref_upper++;
        }
        int hyp_upper = 0;
        for (int i = 0; i < hyp.size(); i++) {
          if (isupper(hyp[i])) hyp_upper++;
        }
        if (ref_upper == hyp_upper) sub_tp++;''', '''        for (int i = 1; i < ref.size(); i++) {
          if (isupper(ref[i])) ref_upper++;
        }
        int hyp_upper = 0;
        for (int i = 0; i < hyp.size(); i++) {
          if (isupper(hyp[i])) hyp_upper++;
        }
        if (ref_upper == hyp_upper) sub_tp++;''')],
      demo=PRE + ROW + '''
int main() {
  std::vector<Stitching> v = {row("Paris", "London", "sub(London)"), row("Rome", "rome", "")};
  v[0].nlpRow.casing = "UC"; v[1].nlpRow.casing = "UC"; v[0].reftk = "paris"; v[0].hyptk = "london"; v[1].reftk = v[1].hyptk = "rome";
  RecordCaseWer(v);
  Json::Value c = jsonLogger::JsonLogger::getLogger().root["wer"]["caseWER"];
  CHECK(c["matching"]["false_negative"].asInt() == 1);
  CHECK(c["all"]["true_positive"].asInt() == 1);
  CHECK(c["all"]["false_negative"].asInt() == 1);
  CHECK(c["all"]["false_positive"].asInt() == 0);
  puts("ok");
}
'''),
 dict(id='s07', prop='C08', needs='two entity groups one right after the other, the first without any word inside',
      breaks='the group after an empty entity group is skipped',
      edits=[('src/AlignmentTraversor.cpp', '''      // we're done here...
      currentSubclass = nullptr;''', '''      // we're done here...
      if (currentSubclass->tokens.empty()) currentPosInRoot++;
      currentSubclass = nullptr;''')],
      demo=PRE + '''#include "AlignmentTraversor.h"
int main() {
  wer_alignment t; t.tokens = {{"a", "a"}, {"___0_DATE___", "___0_DATE___"}, {"___1_DATE___", "___1_DATE___"}, {"z", "z"}};
  wer_alignment l0, l1; l0.classLabel = "___0_DATE___"; l1.classLabel = "___1_DATE___"; l1.tokens = {{"one", "one"}, {"two", DEL}};
  t.label_alignments = {l0, l1};
  AlignmentTraversor v(t); triple x; std::string s;
  while (v.NextTriple(x)) s += x.ref + "/" + x.hyp + " ";
  printf("%s\\n", s.c_str());
  CHECK(s == "a/a one/one two/<del> z/z ");
  puts("ok");
}
'''),
]
