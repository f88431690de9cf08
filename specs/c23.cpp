// The alignment pipeline: which graph is built from which side, and what is derived from its result.
#include "spec.h"
#include <fstream>
#include "fstalign.h"
#include "AdaptedComposition.h"
#include "OneBestFstLoader.h"
#include "StandardComposition.h"
#include "Walker.h"
#include "fast-d.h"
#include "wer.h"
std::vector<Stitching> make_stitches(wer_alignment &, std::vector<RawCtmRecord>, std::vector<RawNlpRecord>, std::vector<std::string>, bool);
void align_stitches_to_nlp(NlpFstLoader &, std::vector<Stitching> &);
void write_stitches_to_nlp(std::vector<Stitching> &, std::ofstream &, Json::Value, bool);
wer_alignment Fstalign(FstLoader &, FstLoader &, SynonymEngine &, const AlignerOptions &);
bool sort_alignment(const wer_alignment &, const wer_alignment &);
namespace spec {
// output labels first, then input labels, descending
struct ReverseOLabelCompare {
  bool operator()(const StdArc &l, const StdArc &r) const { return l.olabel > r.olabel || (l.olabel == r.olabel && l.ilabel > r.ilabel); }
};

bool sort_alignment(const wer_alignment &a, const wer_alignment &b) { return a.WER() < b.WER(); }

wer_alignment Fstalign(FstLoader &ref, FstLoader &hyp, SynonymEngine &engine, const AlignerOptions &o) {
  FstAlignOption options;
  SymbolTable symbol("symbols");
  if (!o.symbols_filename.empty()) {
    std::ifstream in(o.symbols_filename, std::ios_base::in);
    if (!in.is_open()) throw std::runtime_error("Cannot open symbols file");
    SymbolTable *read = SymbolTable::ReadText(in, "symbols");
    if (read == nullptr) throw std::runtime_error("Cannot read symbols file");
    symbol = *read;
  }
  options.RegisterSymbols(symbol);

  std::vector<int> refmap, hypmap;
  if (o.levenstein_first_pass) {
    SymbolTable ids;
    std::vector<int> a = ref.convertToIntVector(ids);
    std::vector<int> b = hyp.convertToIntVector(ids);
    if (a.size() > 10 && b.size() > 10) {
      GetEditDistance(a, refmap, b, hypmap);
      // a match between two errors may be an error too
      for (int x = 1; x < refmap.size() - 1; x++)
        if (refmap[x - 1] < 0 && refmap[x + 1] < 0) refmap[x] = -1;
      for (int x = 1; x < hypmap.size() - 2; x++)
        if (hypmap[x - 1] < 0 && hypmap[x + 1] < 0) hypmap[x] = -1;
    }
  }
  ref.addToSymbolTable(symbol);
  hyp.addToSymbolTable(symbol);
  bool usemap = !MapContainsErrorStreaks(hypmap, o.levenstein_maximum_error_streak);
  StdVectorFst a, b;
  if (usemap) {
    a = ref.convertToFst(symbol, refmap);
    b = hyp.convertToFst(symbol, hypmap);
  } else {
    a = ref.convertToFst(symbol, {});
    b = hyp.convertToFst(symbol, {});
  }
  engine.GenerateSynFromSymbolTable(symbol);
  engine.ApplyToFst(a, symbol);
  ArcSort(&a, StdILabelCompare());
  Walker walker;
  walker.pruningHeapSizeTarget = o.heapPruningTarget;
  std::vector<wer_alignment> best;
  if (o.composition_approach == "standard") {
    StandardCompositionFst g(a, b, symbol);
    best = walker.walkComposed(g, symbol, options, o.numBests);
  } else if (o.composition_approach == "adapted") {
    RmEpsilon(&a, true);
    ReverseOLabelCompare less;
    ArcSort(&a, less);
    AdaptedCompositionFst g(a, b, symbol);
    best = walker.walkComposed(g, symbol, options, o.numBests);
  } else {
    throw std::runtime_error("invalid composition approach specified");
  }
  if (best.size() == 0) throw std::runtime_error("no alignment produced");
  std::sort(best.begin(), best.end(), sort_alignment);
  return best[0];
}

void HandleWer(FstLoader &ref, FstLoader &hyp, SynonymEngine &engine, const std::string &sbs, const std::string &nlp, AlignerOptions o,
               bool add_inserts, bool use_case) {
  wer_alignment top = ::Fstalign(ref, hyp, engine, o);
  CalculatePrecisionRecall(top, o.pr_threshold);
  RecordWer(top);
  std::vector<RawCtmRecord> ctmrows;
  std::vector<RawNlpRecord> nlprows;
  std::vector<std::string> words;
  if (CtmFstLoader *l = dynamic_cast<CtmFstLoader *>(&hyp)) {
    ctmrows = l->mCtmRows;
  } else if (NlpFstLoader *l = dynamic_cast<NlpFstLoader *>(&hyp)) {
    nlprows = l->mNlpRows;
  } else if (OneBestFstLoader *l = dynamic_cast<OneBestFstLoader *>(&hyp)) {
    for (int i = 0; i < l->TokensSize(); i++) words.push_back(l->getToken(i));
  }
  std::vector<Stitching> stitches = make_stitches(top, ctmrows, nlprows, words, use_case);
  NlpFstLoader *nref = dynamic_cast<NlpFstLoader *>(&ref);
  if (nref) {
    try {
      align_stitches_to_nlp(*nref, stitches);
    } catch (const std::bad_alloc &) {
    }
    if (o.record_case_stats) RecordCaseWer(stitches);
    if (o.speaker_switch_context_size > 0) RecordSpeakerSwitchWer(stitches, o.speaker_switch_context_size);
    RecordSpeakerWer(stitches);
    RecordTagWer(stitches);
    RecordSentenceWer(stitches);
    if (!nlp.empty()) {
      std::ofstream out(nlp);
      if (!out.is_open()) throw std::runtime_error("Cannot open output nlp file");
      write_stitches_to_nlp(stitches, out, nref->mJsonNorm, add_inserts);
    }
  }
  JsonLogUnigramBigramStats(top);
  if (!sbs.empty()) WriteSbs(top, stitches, sbs);
}

void HandleAlign(NlpFstLoader &ref, CtmFstLoader &hyp, SynonymEngine &engine, std::ofstream &out, AlignerOptions o) {
  wer_alignment top = ::Fstalign(ref, hyp, engine, o);
  RecordWer(top);
  std::vector<Stitching> stitches = make_stitches(top, hyp.mCtmRows, {}, {}, false);
  align_stitches_to_nlp(ref, stitches);
  write_stitches_to_nlp(stitches, out, ref.mJsonNorm, false);
}
}  // namespace spec
