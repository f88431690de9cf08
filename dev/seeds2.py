PRE = '''#include <cstdio>
#include <cstdlib>
#include <fstream>
#include "fstalign.h"
#include "wer.h"
#include "fast-d.h"
#include "json_logging.h"
#include "AdaptedComposition.h"
#include "StandardComposition.h"
#include "Walker.h"
#include "OneBestFstLoader.h"
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\\n", #c, __LINE__); exit(1); } } while (0)
'''
ROW = '''static Stitching row(std::string ref, std::string hyp, std::string comment, std::string cls = TK_GLOBAL_CLASS) {
  Stitching s; s.classLabel = cls; s.reftk = ref; s.hyptk = hyp; s.comment = comment; s.hyp_orig = hyp; s.start_ts = s.end_ts = s.duration = s.confidence = 0; return s; }
static RawNlpRecord rec(std::string tok, std::string label = "", std::string spk = "1", std::string punct = "") {
  RawNlpRecord r; r.token = tok; r.best_label = label; r.best_label_id = label.substr(0, label.find(":")); r.speakerId = spk; r.punctuation = punct; return r; }
'''
FSTS = '''static SymbolTable symbols() { SymbolTable s("symbols"); FstAlignOption o; o.RegisterSymbols(s); return s; }
struct Chain { StdVectorFst f; SymbolTable &s; int last; Chain(SymbolTable &s) : s(s) { last = f.AddState(); f.SetStart(last); }
  int id(const std::string &w) { return s.AddSymbol(w); }
  int arc(int from, const std::string &w, int to, float weight = 0) { while (f.NumStates() <= std::max(from, to)) f.AddState(); int i = id(w); f.AddArc(from, StdArc(i, i, weight, to)); return to; }
  Chain &word(const std::string &w, float weight = 0) { int n = f.AddState(); arc(last, w, n, weight); last = n; return *this; }
  Chain &end() { f.SetFinal(last, StdArc::Weight::One()); return *this; } };
'''
SYN = '''#include "SynonymEngine.h"
'''
STRTK = '''#pragma once
#include <iterator>
#include <string>
#include <vector>
namespace strtk {
namespace split_options { enum type { default_mode = 0, compress_delimiters = 1, include_1st_delimiter = 2 }; }
template <class C> struct inserter { C *c; };
template <class C> inserter<C> range_to_type_back_inserter(C &c) { return inserter<C>{&c}; }
// splits at any of the delimiters; compressed runs of delimiters count as one
template <class C> void split(const char *delims, const std::string &s, inserter<C> out, int mode = 0) {
  std::string d(delims), cur; size_t i = 0;
  if (s.empty()) return;
  for (; i < s.size(); i++) {
    if (d.find(s[i]) != std::string::npos) {
      out.c->push_back(cur); cur.clear();
      if (mode & split_options::compress_delimiters) while (i + 1 < s.size() && d.find(s[i + 1]) != std::string::npos) i++;
    } else cur += s[i];
  }
  out.c->push_back(cur);
}
}
'''
S = [
 dict(id='s08', prop='C01', needs='a path where another label occurs inside an open entity group (a synonym inside an entity)',
      breaks='an inner label closes the group it occurs in, so the words after it are tallied outside the group',
      edits=[('src/Walker.cpp', '''      } else if (ilabel == class_label_wer_info->classLabel) {
        // we're leaving a class label section
        class_label_wer_info = nullptr;
      }''', '''      } else {
        // we're leaving a class label section
        class_label_wer_info = nullptr;
      }''')],
      demo=PRE + FSTS + '''
int main() {
  SymbolTable s = symbols();
  std::string L = "___1_DATE___", Y = "___100000_SYN_1-1___";
  Chain r(s), h(s);
  r.word(L).word("a").word(Y).word("b").word(Y).word("c").word(L).word("d").end();
  h.word("a").word("b").word("c").word("d").end();
  AdaptedCompositionFst c(r.f, h.f, s);
  FstAlignOption o; o.RegisterSymbols(s);
  Walker w;
  auto v = w.walkComposed(c, s, o, 1);
  CHECK(v.size() == 1);
  CHECK(v[0].label_alignments.size() == 1);
  CHECK(v[0].label_alignments[0].tokens.size() == 3);
  CHECK(v[0].label_alignments[0].numWordsInReference == 3);
  CHECK(v[0].tokens.size() == 2);
  CHECK(v[0].numWordsInReference == 4);
  puts("ok");
}
'''),
 dict(id='s09', prop='C02', needs='a synonym branch whose inner state has an epsilon arc that leads nowhere before the arc that matches',
      breaks='the look-ahead gives up at the first epsilon arc, so a reachable synonym branch is not offered',
      edits=[('src/AdaptedComposition.cpp', '''      bool does_this_reach_the_end = IsEntityReacheable(target_entity_label_id, arcA.nextstate, refB);
      if (does_this_reach_the_end) {
        return true;
      }

      continue;
    }

    for''', '''      return IsEntityReacheable(target_entity_label_id, arcA.nextstate, refB);
    }

    for''')],
      demo=PRE + FSTS + '''
int main() {
  SymbolTable s = symbols();
  std::string Y = "___100000_SYN_1-1___";
  Chain r(s), h(s);
  // 0 -not-> 1(final); 0 -Y-> 2; 2 -eps-> 3 -zzz-> 4 -Y-> 1; 2 -isn't-> 5 -Y-> 1
  r.arc(0, "not", 1); r.arc(0, Y, 2); r.arc(2, "<eps>", 3); r.arc(3, "zzz", 4); r.arc(4, Y, 1); r.arc(2, "nope", 5); r.arc(5, Y, 1); r.f.SetFinal(1, 0);
  h.word("nope").end();
  AdaptedCompositionFst c(r.f, h.f, s);
  std::vector<StdArc> out;
  CHECK(c.TryGetArcsAtState(c.Start(), &out));
  bool branch = false;
  for (auto &a : out) branch |= a.ilabel == s.Find(Y);
  CHECK(branch);
  // and a branch whose words do not match is not offered
  Chain h2(s); h2.word("other").end();
  AdaptedCompositionFst c2(r.f, h2.f, s);
  out.clear(); CHECK(c2.TryGetArcsAtState(c2.Start(), &out));
  for (auto &a : out) CHECK(a.ilabel != s.Find(Y));
  puts("ok");
}
'''),
 dict(id='s10', prop='C04', needs='a state that is first entered at a high cost, then at a lower one, then at a cost in between',
      breaks='the lowest cost of a state is not remembered after the first visit, so dearer paths enter it again',
      edits=[('src/Walker.cpp', '''  logbook[enqueued->currentState] = enqueued->costSoFar;
''', '''  logbook.emplace(enqueued->currentState, enqueued->costSoFar);
''')],
      demo=PRE + '''
// a graph given arc by arc
struct G : IComposition { std::map<int, std::vector<StdArc>> m; int fin; int asked = 0; int final_arcs = 0;
  StateId Start() override { return 0; }
  fst::Fst<fst::StdArc>::Weight Final(StateId s) override { return s == fin ? fst::Fst<fst::StdArc>::Weight::One() : fst::Fst<fst::StdArc>::Weight::Zero(); }
  bool TryGetArcsAtState(StateId s, std::vector<fst::StdArc> *o) override { *o = m[s]; return true; }
};
int main() {
  SymbolTable s("symbols"); FstAlignOption o; o.RegisterSymbols(s);
  int a = s.AddSymbol("a");
  G g; g.fin = 9;
  // state 9 is reached at cost 8 after one arc, 0 after two, 4 after three
  g.m[0] = {StdArc(a, a, 8, 9), StdArc(a, a, 0, 1)};
  g.m[1] = {StdArc(a, a, 0, 9), StdArc(a, a, 0, 2)};
  g.m[2] = {StdArc(a, a, 4, 9)};
  Walker w;
  auto v = w.walkComposed(g, s, o, 100);
  printf("%zu candidates\\n", v.size());
  CHECK(v.size() == 2);
  puts("ok");
}
'''),
 dict(id='s11', prop='C03', needs='a synonym label in the reference of a two-step composition',
      breaks='the two-step composition treats a synonym label as an ordinary word that costs a deletion',
      edits=[('src/StandardComposition.cpp', 'bool isClassLabel = isEntityLabel(sym_tk);', 'bool isClassLabel = isEntityLabel(sym_tk) && !isSynonymLabel(sym_tk);')],
      demo=PRE + FSTS + '''
int main() {
  for (std::string L : {"___1_DATE___", "___100000_SYN_1-1___"}) {
    SymbolTable s = symbols();
    Chain r(s), h(s);
    r.word("a").word(L).word("b").word(L).word("c").end();
    h.word("a").word("b").word("c").end();
    StandardCompositionFst c(r.f, h.f, s);
    FstAlignOption o; o.RegisterSymbols(s);
    // the cheapest way through the composition
    std::map<int, double> best; std::vector<int> todo{(int)c.Start()}; best[c.Start()] = 0; double fin = 1e9;
    for (int n = 0; n < 100000 && !todo.empty(); n++) {
      int x = todo.front(); todo.erase(todo.begin());
      if (c.Final(x) != StdArc::Weight::Zero()) fin = std::min(fin, best[x]);
      std::vector<StdArc> out; c.TryGetArcsAtState(x, &out);
      for (auto &a : out) { double d = best[x] + a.weight.Value(); if (!best.count(a.nextstate) || d < best[a.nextstate] - 1e-9) { best[a.nextstate] = d; todo.push_back(a.nextstate); } }
    }
    printf("%s %g\\n", L.c_str(), fin);
    CHECK(fin == 0);
  }
  puts("ok");
}
'''),
 dict(id='s12', prop='C10', needs='a CTM whose first line separates two of its five columns by a space and a tab',
      breaks='two different separators in a row are counted as two columns, so a confidence column is expected that is not there',
      edits=[('src/Ctm.cpp', "if (lastChar != ' ' && lastChar != '\\t') {", 'if (lastChar != c) {')],
      demo=PRE + '''
int main() {
  for (std::string line : {"rec 1 0.5 0.25 hello\\n", "rec 1 0.5 \\t0.25 hello\\n", "rec  1 0.5 0.25 hello\\n"}) {
    { std::ofstream f("x.ctm"); f << line; }
    std::vector<RawCtmRecord> v;
    try { v = CtmReader().read_from_disk("x.ctm"); } catch (std::exception &e) { puts(e.what()); v.clear(); if (line.find("  ") != std::string::npos) continue; CHECK(line.find('\\t') == std::string::npos || std::string(e.what()).find("Too few") == std::string::npos); continue; }
    CHECK(v.size() == 1);
    CHECK(v[0].confidence == 1);
  }
  puts("ok");
}
'''),
 dict(id='s13', prop='C14', needs='a transcript whose last word is pinned by the fast pass',
      breaks='a pin on the last word of a text transcript is ignored',
      edits=[('src/OneBestFstLoader.cpp', 'if (map_sz > wc && map[wc] > 0) {', 'if (map_sz > wc + 1 && map[wc] > 0) {')],
      demo=PRE + '''
int main() {
  OneBestFstLoader l; l.BuildFromString("one two three");
  SymbolTable s("symbols"); FstAlignOption o; o.RegisterSymbols(s); l.addToSymbolTable(s);
  StdVectorFst f = l.convertToFst(s, {-1, 1, 1});
  std::vector<float> w; int st = f.Start();
  for (int i = 0; i < 3; i++) { ArcIterator<StdFst> a(f, st); w.push_back(a.Value().weight.Value()); st = a.Value().nextstate; }
  CHECK(w[0] == 0 && w[1] == 1 && w[2] == 1);
  f = l.convertToFst(s, {1});
  w.clear(); st = f.Start();
  for (int i = 0; i < 3; i++) { ArcIterator<StdFst> a(f, st); w.push_back(a.Value().weight.Value()); st = a.Value().nextstate; }
  CHECK(w[0] == 1 && w[1] == 0 && w[2] == 0);
  puts("ok");
}
'''),
 dict(id='s14', prop='C15', needs='two runs of the same label with an unlabelled word between them',
      breaks='a second run of a label is merged into the first one across the words in between, so its token is lost',
      edits=[('src/Nlp.cpp', '''    firstTk = false;
    last_label = curr_label;''', '''    firstTk = false;
    if (!curr_label.empty()) {
      last_label = curr_label;
    }''')],
      demo=PRE + ROW + '''
struct L : NlpFstLoader { using NlpFstLoader::NlpFstLoader; int n() { return mToken.size(); } };
int main() {
  std::vector<RawNlpRecord> v = {rec("one", "0:DATE"), rec("two", "0:DATE"), rec("and"), rec("three", "0:DATE")};
  Json::Value norm(Json::objectValue), side(Json::objectValue);
  L l(v, norm, side);
  CHECK(l.n() == 3);
  CHECK(l.getToken(0) == "___0_DATE___" && l.getToken(1) == "and" && l.getToken(2) == "___0_DATE___");
  CHECK(l.mJsonNorm["0"]["candidates"].size() == 2);
  puts("ok");
}
'''),
 dict(id='s15', prop='C19', needs='an entity of several reference records that is covered by a single row, followed by more words',
      breaks='after several records were joined to one row, the following rows get the records of that entity again',
      edits=[('src/fstalign.cpp', '''    // setting the index properly for the next turn...
    nlpRowIndex += classLabelRowsInNlp;

    // special case: multiple nlp rows mapped to one row in the CTM
    if (classLabelRowsInStitches == 1) {''', '''    // setting the index properly for the next turn...
    nlpRowIndex += std::min(classLabelRowsInNlp, classLabelRowsInStitches + 1);

    // special case: multiple nlp rows mapped to one row in the CTM
    if (classLabelRowsInStitches == 1) {''')],
      demo=PRE + ROW + '''
void align_stitches_to_nlp(NlpFstLoader &refLoader, vector<Stitching> &stitches);
int main() {
  std::vector<RawNlpRecord> v = {rec("on"), rec("may", "0:DATE"), rec("twenty", "0:DATE"), rec("first", "0:DATE", "1", ","), rec("we", "", "2"), rec("met", "", "3")};
  Json::Value norm(Json::objectValue), side(Json::objectValue);
  NlpFstLoader l(v, norm, side);
  std::vector<Stitching> s = {row("on", "on", ""), row("5/21", "5/21", "", "___0_DATE___"), row(INS, "uh", "ins"), row("we", "we", ""), row("met", DEL, "del")};
  align_stitches_to_nlp(l, s);
  CHECK(s[0].nlpRow.token == "on");
  CHECK(s[1].nlpRow.token == "may" && s[1].nlpRow.punctuation == ",");
  CHECK(s[2].nlpRow.token == "");
  CHECK(s[3].nlpRow.token == "we" && s[3].nlpRow.speakerId == "2");
  CHECK(s[4].nlpRow.token == "met" && s[4].nlpRow.speakerId == "3");
  puts("ok");
}
''', srcs=['src/SynonymEngine.cpp'], files={'strtk/strtk.hpp': STRTK}),
 dict(id='s16', prop='C12', needs='an entity label whose name contains an underscore',
      breaks='the name of an entity label is cut at its last underscore instead of the first',
      edits=[('src/utilities.cpp', 'string label = label_id.substr(label_id.find("_") + 1);', 'string label = label_id.substr(label_id.rfind("_") + 1);')],
      demo=PRE + '''
int main() {
  CHECK(GetLabelNameFromClassLabel("___23_ORDINAL___") == "ORDINAL");
  CHECK(GetLabelNameFromClassLabel("___7_PHONE_NUMBER___") == "PHONE_NUMBER");
  puts("ok");
}
'''),
 dict(id='s17', prop='C23', needs='a run with speaker-switch statistics switched off',
      breaks='per-speaker statistics disappear from the report when only the speaker-switch window is switched off',
      edits=[('src/fstalign.cpp', '''      RecordSpeakerSwitchWer(stitches, alignerOptions.speaker_switch_context_size);
    }

    // Calculate and record supplementary WER
    RecordSpeakerWer(stitches);''', '''      RecordSpeakerSwitchWer(stitches, alignerOptions.speaker_switch_context_size);

      // Calculate and record supplementary WER
      RecordSpeakerWer(stitches);
    }''')],
      demo=PRE + ROW + '''
int main() {
  std::vector<RawNlpRecord> v = {rec("a", "", "1"), rec("b", "", "1"), rec("c", "", "2", ".")};
  Json::Value norm(Json::objectValue), side(Json::objectValue);
  for (int ctx : {5, 0}) {
    NlpFstLoader ref(v, norm, side);
    OneBestFstLoader hyp; hyp.BuildFromString("a b c");
    jsonLogger::JsonLogger::getLogger().root = Json::objectValue;
    AlignerOptions o; o.speaker_switch_context_size = ctx; o.record_case_stats = false; o.numBests = 5;
    SynonymEngine e{SynonymOptions()};
    HandleWer(ref, hyp, e, "", "", o);
    Json::Value w = jsonLogger::JsonLogger::getLogger().root["wer"];
    CHECK(w["speakerWER"]["1"]["numWordsInReference"].asInt() == 2);
    CHECK(w["speakerWER"]["2"]["numWordsInReference"].asInt() == 1);
    CHECK(w.isMember("speakerSwitchWER") == (ctx > 0));
    CHECK(w["sentenceWer"].size() == 1);
  }
  puts("ok");
}
''', srcs=['src/SynonymEngine.cpp'], files={'strtk/strtk.hpp': STRTK}),
 dict(id='s18', prop='C13', needs='a rule that can be read along two different paths which end in different states',
      breaks='a synonym branch is joined to the first end of its rule only',
      edits=[('src/SynonymEngine.cpp', '''            pair<int, StdArc> local_pair;
            local_pair = make_pair(currState, newArc);
            arcsToAdd.push_back(local_pair);
          }
        }''', '''            pair<int, StdArc> local_pair;
            local_pair = make_pair(currState, newArc);
            arcsToAdd.push_back(local_pair);
            if (alternative.size() > lhs.size()) break;
          }
        }''')],
      demo=PRE + FSTS + '''
int main() {
  SymbolTable s = symbols();
  SynonymEngine e{SynonymOptions()};
  e.ParseStrings({"going | go ing ; goin"});
  Chain r(s);
  r.arc(0, "going", 1); r.arc(0, "going", 2); r.arc(1, "a", 3); r.arc(2, "b", 3); r.f.SetFinal(3, 0);
  e.ApplyToFst(r.f, s);
  // every branch ends in both ends of the rule
  for (std::string y : {"___100000_SYN_1-2___", "___100001_SYN_1-1___"}) {
    int id = s.Find(y); CHECK(id > 0);
    std::set<int> ends; int starts = 0;
    for (int q = 0; q < r.f.NumStates(); q++)
      for (ArcIterator<StdFst> a(r.f, q); !a.Done(); a.Next())
        if (a.Value().ilabel == id) { if (q == 0) starts++; else ends.insert(a.Value().nextstate); }
    CHECK(ends.count(1) && ends.count(2));
    CHECK(starts >= 1);
  }
  puts("ok");
}
''', srcs=['src/SynonymEngine.cpp'], files={'strtk/strtk.hpp': STRTK}),
 dict(id='s19', prop='C24', needs='a symbol table that already holds the unknown-word symbol but not the silence symbol',
      breaks='the silence symbol is only registered together with the unknown-word symbol, so it has no valid id',
      edits=[('src/utilities.h', '''    sil_idx = symbol.Find(symSil);
    if (sil_idx == noSym) {
      sil_idx = symbol.AddSymbol(symSil);
    }

    unk_idx = symbol.Find(symUnk);
    if (unk_idx == noSym) {
      unk_idx = symbol.AddSymbol(symUnk);
    }''', '''    sil_idx = symbol.Find(symSil);
    unk_idx = symbol.Find(symUnk);
    if (unk_idx == noSym) {
      if (sil_idx == noSym) {
        sil_idx = symbol.AddSymbol(symSil);
      }
      unk_idx = symbol.AddSymbol(symUnk);
    }''')],
      demo=PRE + '''
int main() {
  SymbolTable s("symbols"); s.AddSymbol("<eps>"); int u = s.AddSymbol("<unk>");
  FstAlignOption o; o.RegisterSymbols(s);
  CHECK(o.eps_idx == 0 && o.unk_idx == u);
  CHECK(o.sil_idx > 0 && s.Find(o.sil_idx) == "<silence>");
  CHECK(s.Find("<inaudible>") == o.inaud_idx && s.Find("<oov>") == o.oov_idx);
  SymbolTable e("symbols"); FstAlignOption p; p.RegisterSymbols(e);
  CHECK(e.NumSymbols() == 8 && p.eps_idx == 0);
  puts("ok");
}
'''),
 dict(id='s20', prop='C06', needs='an alignment without any reference word',
      breaks='the word error rate of an empty reference is reported as a finite number when there are insertions',
      edits=[('src/utilities.h', '''    if (numWordsInHypothesis > 0) {
      return numeric_limits<float>::infinity();
    }

    return 0;''', '''    if (numWordsInHypothesis > 0) {
      return (float)(insertions + deletions + substitutions) / (float)numWordsInHypothesis;
    }

    return 0;''')],
      demo=PRE + '''
int main() {
  wer_alignment w; CHECK(w.WER() == 0);
  w.insertions = 2; w.numWordsInHypothesis = 2; CHECK(std::isinf(w.WER()));
  w.numWordsInReference = 4; CHECK(w.WER() == 0.5f);
  puts("ok");
}
'''),
]
