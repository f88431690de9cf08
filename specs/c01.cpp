// What the best path through the composed graph is counted as.
#include "spec.h"
#include "Walker.h"
namespace spec {
struct wer_alignment_ : wer_alignment {
  void Reverse() {
    std::reverse(tokens.begin(), tokens.end());
    std::reverse(ref_words.begin(), ref_words.end());
    std::reverse(hyp_words.begin(), hyp_words.end());
    std::reverse(sub_words.begin(), sub_words.end());
    std::reverse(del_words.begin(), del_words.end());
    std::reverse(ins_words.begin(), ins_words.end());
    for (size_t i = 0; i < label_alignments.size(); i++) label_alignments[i].Reverse();
  }
};

enum Kind { Ins, Del, Sub, Cor };

static void tally(wer_alignment &w, Kind k, const std::string &r, const std::string &h) {
  if (k == Ins) {
    w.insertions++;
    w.numWordsInHypothesis++;
    w.ins_words.push_back(h);
  } else if (k == Del) {
    w.deletions++;
    w.numWordsInReference++;
    w.del_words.push_back(r);
  } else {
    w.numWordsInReference++;
    w.numWordsInHypothesis++;
    if (k == Sub) {
      w.substitutions++;
      w.sub_words.push_back(std::make_pair(r, h));
    }
  }
  w.ref_words.push_back(k == Ins ? std::string(INS) : r);
  w.hyp_words.push_back(k == Del ? std::string(DEL) : h);
}

struct Walker_ : Walker {
  wer_alignment GetDetailsFromTopCandidates(ShortlistEntry &last, SymbolTable &symbol, FstAlignOption &o) {
    wer_alignment g;
    wer_alignment *group = nullptr;
    for (ShortlistEntry *e = &last; e != nullptr; e = e->linkToHere.get()) {
      int i = e->local_arc.ilabel, out = e->local_arc.olabel;
      std::string r = symbol.Find(i), h = symbol.Find(out);
      if (isEntityLabel(r)) {
        // walking backwards: the first label met opens the group, the same label again closes it
        if (group == nullptr) {
          g.tokens.push_back(std::make_pair(r, h));
          g.label_alignments.push_back(wer_alignment());
          group = &g.label_alignments.back();
          group->classLabel = r;
        } else if (r == group->classLabel) {
          group = nullptr;
        }
        continue;
      }
      Kind k;
      if (i == out) {
        // epsilons and markers are no words
        if (i == o.eps_idx || i == o.del_idx || i == o.ins_idx || i == o.sub_idx || i == o.oov_idx) continue;
        k = Cor;
      } else if (i == 0) {
        k = Ins;
      } else if (out == 0) {
        k = Del;
      } else {
        k = Sub;
      }
      tally(g, k, r, h);
      std::pair<std::string, std::string> both(k == Ins ? std::string(INS) : r, k == Del ? std::string(DEL) : h);
      if (group != nullptr) {
        tally(*group, k, r, h);
        group->tokens.push_back(both);
      } else {
        g.tokens.push_back(both);
      }
    }
    g.Reverse();
    return g;
  }
};
}  // namespace spec
