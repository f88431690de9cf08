# seeded bugs of lifetimes and nullness (C25)
g_ = {}
exec(open("/verif/dev/seeds3.py").read(), g_)
FILES = g_['FILES']
ASAN = '-g -fsanitize=address -fno-omit-frame-pointer'
S = [
 dict(id='s29', prop='C25', needs='an alignment with a synonym or entity section, entered when the row vector is at its capacity',
      breaks='a row is written through a reference after the vector holding it was given more room',
      edits=[('src/fstalign.cpp', '''    Stitching &part = stitches.back();
    part.classLabel = tk_classLabel;
''', '''    Stitching &part = stitches.back();
    if (tk_classLabel != TK_GLOBAL_CLASS && tk_classLabel != prev_tk_classLabel) {
      // a class usually brings several rows
      stitches.reserve(stitches.size() + 32);
    }
    part.classLabel = tk_classLabel;
''')],
      files=FILES, flags=ASAN, srcs=['src/fstalign.cpp'], demo={'sh': r'''
export ASAN_OPTIONS=detect_leaks=0
printf 'we will see a cat\n' > ref.txt
printf 'we shall see a cat\n' > hyp.txt
printf 'we will | we shall\n' > syn.txt
"$F" wer --ref ref.txt --hyp hyp.txt --syn syn.txt --output-sbs sbs.txt > o.txt 2>&1 || fail "run $(grep -m1 ERROR o.txt; tail -3 o.txt)"
grep -q 'shall' sbs.txt || fail "$(cat sbs.txt)"
'''}),
 dict(id='s30', prop='C25', needs='a synonym chosen inside an entity label: a second section is recorded while the first one is still written to',
      breaks='the statistics of an entity are written through a pointer into a vector that has grown since',
      edits=[('src/Walker.cpp', '''        class_label_wer_info = nullptr;
      }
      // Ignore nested classes.
''', '''        class_label_wer_info = nullptr;
      } else {
        global_wer_alignment.label_alignments.emplace_back();
        global_wer_alignment.label_alignments.back().classLabel = ilabel;
      }
      // Ignore nested classes.
''')],
      files={'strtk/strtk.hpp': FILES['strtk/strtk.hpp']}, flags=ASAN + ' -fno-access-control', srcs=['src/Walker.cpp'], demo=r'''
#include "Walker.h"
#include "utilities.h"
#include <cstdio>
extern "C" const char *__asan_default_options() { return "detect_leaks=0"; }
int main() {
  logger::InitLoggers("");
  FstAlignOption options;
  SymbolTable symbol;
  options.RegisterSymbols(symbol);
  int label = symbol.AddSymbol("___1_CARDINAL___"), inner = symbol.AddSymbol("___100000_SYN_1-1___"), w = symbol.AddSymbol("twenty"), v = symbol.AddSymbol("score");
  int ids[] = {label, inner, w, inner, v, label};
  std::shared_ptr<ShortlistEntry> prev;
  for (int id : ids) {
    auto e = std::make_shared<ShortlistEntry>();
    e->local_arc.ilabel = id;
    e->local_arc.olabel = id;
    e->numWords = 6;
    e->linkToHere = prev;
    prev = e;
  }
  Walker walker;
  auto a = walker.GetDetailsFromTopCandidates(*prev, symbol, options);
  size_t words = 0;
  for (auto &l : a.label_alignments) if (l.classLabel == "___1_CARDINAL___") words += l.tokens.size();
  if (words != 2) { printf("the entity has %zu of 2 words\n", words); return 1; }
  return 0;
}
'''),
 dict(id='s31', prop='C25', needs='a reference without nlp columns together with --output-nlp',
      breaks='the pointer of a checked cast is followed when the reference is of another kind',
      edits=[('src/fstalign.cpp', '''  if (nlp_ref_loader) {
    // We have an NLP reference''', '''  if (nlp_ref_loader || !output_nlp.empty()) {
    // We have an NLP reference''')],
      files=FILES, demo={'sh': r'''
printf 'alpha beta gamma\n' > ref.txt
printf 'alpha gamma\n' > hyp.txt
"$F" wer --ref ref.txt --hyp hyp.txt --output-nlp out.nlp > o.txt 2>&1 || fail "run ends with status $?: $(tail -3 o.txt)"
'''}),
 dict(id='s32', prop='C25', needs='an alignment with an entity or synonym section of more than one row',
      breaks='the traversal keeps a pointer to a copy that has ended, so later rows of a section come from freed memory',
      edits=[('src/AlignmentTraversor.cpp', '''      for (auto &a : root.label_alignments) {
        if''', '''      for (auto a : root.label_alignments) {
        if''')],
      files=FILES, flags=ASAN + ' -fsanitize-address-use-after-scope', srcs=['src/AlignmentTraversor.cpp'], demo={'sh': r'''
export ASAN_OPTIONS=detect_leaks=0
printf 'we will see a cat\n' > ref.txt
printf 'we shall see a cat\n' > hyp.txt
printf 'we will | we shall\n' > syn.txt
"$F" wer --ref ref.txt --hyp hyp.txt --syn syn.txt --output-sbs sbs.txt > o.txt 2>&1 || fail "run $(grep -m1 ERROR o.txt; tail -3 o.txt)"
grep -q 'shall' sbs.txt || fail "$(cat sbs.txt)"
'''}),
]
