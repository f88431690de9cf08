// From the best alignment to one row per aligned token pair.
#include "spec.h"
#include "fstalign.h"
#include "AlignmentTraversor.h"
namespace spec {
std::vector<Stitching> make_stitches(wer_alignment &alignment, std::vector<RawCtmRecord> ctm, std::vector<RawNlpRecord> nlp,
                                     std::vector<std::string> words, bool use_case) {
  std::vector<Stitching> out;
  AlignmentTraversor walk(alignment);
  triple t;
  int row = 0;
  while (walk.NextTriple(t)) {
    Stitching s{};
    s.reftk = t.ref;
    s.hyptk = t.hyp;
    s.classLabel = t.classLabel;
    if (t.hyp == DEL) s.comment = "del";
    else if (t.ref == INS) s.comment = "ins";
    else if (t.ref != t.hyp) s.comment = "sub(" + t.hyp + ")";
    // only tokens of the hypothesis consume a row of it
    if (t.hyp != DEL && t.ref != NOOP) {
      if (ctm.size() > 0) {
        const RawCtmRecord &c = ctm[row];
        s.hyp_orig = c.word;
        s.start_ts = c.start_time_secs;
        s.duration = c.duration_secs;
        s.end_ts = c.start_time_secs + c.duration_secs;
        s.confidence = c.confidence;
      }
      if (nlp.size() > 0) {
        const RawNlpRecord &n = nlp[row];
        s.hyp_orig = n.token;
        bool from = !n.ts.empty(), to = !n.endTs.empty();
        if (from && to) {
          s.start_ts = std::stof(n.ts);
          s.end_ts = std::stof(n.endTs);
          s.duration = std::stof(n.endTs) - std::stof(n.ts);
        } else if (from) {
          s.start_ts = std::stof(n.ts);
          s.end_ts = std::stof(n.ts);
          s.duration = 0.0;
        } else if (to) {
          s.start_ts = std::stof(n.endTs);
          s.end_ts = std::stof(n.endTs);
          s.duration = 0.0;
        }
      }
      if (words.size() > 0) s.hyp_orig = words[row];
      row++;
    }
    out.push_back(s);
  }
  return out;
}

struct AlignmentTraversor_ : AlignmentTraversor {
  AlignmentTraversor_(wer_alignment &top) : AlignmentTraversor(top) {
    currentPosInRoot = -1;
    currentSubclass = nullptr;
  }
  // tokens in order; an entity label is replaced by the tokens of the first class alignment bearing it
  bool NextTriple(triple &t) {
    if (currentSubclass != nullptr) {
      currentPosInSubclass++;
      bool none = currentSubclass->tokens.size() == 0;
      if (none && currentPosInSubclass == 0 && currentSubclass->classLabel.find("FALLBACK") != std::string::npos) {
        t.ref = NOOP;
        t.hyp = NOOP;
        t.classLabel = currentSubclass->classLabel;
        return true;
      }
      if (currentPosInSubclass < currentSubclass->tokens.size()) {
        t.ref = currentSubclass->tokens[currentPosInSubclass].first;
        t.hyp = currentSubclass->tokens[currentPosInSubclass].second;
        t.classLabel = currentSubclass->classLabel;
        return true;
      }
      currentSubclass = nullptr;
      currentPosInSubclass = -1;
      return NextTriple(t);
    }
    currentPosInRoot++;
    if (currentPosInRoot >= root.tokens.size()) return false;
    if (!isEntityLabel(root.tokens[currentPosInRoot].first)) {
      t.ref = root.tokens[currentPosInRoot].first;
      t.hyp = root.tokens[currentPosInRoot].second;
      t.classLabel = TK_GLOBAL_CLASS;
      return true;
    }
    currentPosInSubclass = -1;
    for (size_t i = 0; i < root.label_alignments.size(); i++) {
      if (root.label_alignments[i].classLabel == root.tokens[currentPosInRoot].first) {
        currentSubclass = &root.label_alignments[i];
        break;
      }
    }
    return NextTriple(t);
  }
  void Restart() {
    currentPosInRoot = -1;
    currentPosInSubclass = -1;
    currentSubclass = nullptr;
  }
};

// the same function with the recursion spelled as a loop over its states
struct AlignmentSteps_ : AlignmentTraversor {
  bool NextTriple(triple &t) {
    while (true) {
      if (currentSubclass != nullptr) {
        currentPosInSubclass++;
        bool none = currentSubclass->tokens.size() == 0;
        if (none && currentPosInSubclass == 0 && currentSubclass->classLabel.find("FALLBACK") != std::string::npos) {
          t.ref = NOOP;
          t.hyp = NOOP;
          t.classLabel = currentSubclass->classLabel;
          return true;
        }
        if (currentPosInSubclass < currentSubclass->tokens.size()) {
          t.ref = currentSubclass->tokens[currentPosInSubclass].first;
          t.hyp = currentSubclass->tokens[currentPosInSubclass].second;
          t.classLabel = currentSubclass->classLabel;
          return true;
        }
        currentSubclass = nullptr;
        currentPosInSubclass = -1;
      } else {
        currentPosInRoot++;
        if (currentPosInRoot >= root.tokens.size()) return false;
        if (!isEntityLabel(root.tokens[currentPosInRoot].first)) {
          t.ref = root.tokens[currentPosInRoot].first;
          t.hyp = root.tokens[currentPosInRoot].second;
          t.classLabel = TK_GLOBAL_CLASS;
          return true;
        }
        currentPosInSubclass = -1;
        for (size_t i = 0; i < root.label_alignments.size(); i++) {
          if (root.label_alignments[i].classLabel == root.tokens[currentPosInRoot].first) {
            currentSubclass = &root.label_alignments[i];
            break;
          }
        }
      }
    }
  }
};

// the same function, one word of the best path per round
struct AlignmentLoop_ : AlignmentTraversor {
  bool NextTriple(triple &t) {
    while (true) {
      if (currentSubclass != nullptr) {
        currentPosInSubclass++;
        bool none = currentSubclass->tokens.size() == 0;
        if (none && currentPosInSubclass == 0 && currentSubclass->classLabel.find("FALLBACK") != std::string::npos) {
          t.ref = NOOP;
          t.hyp = NOOP;
          t.classLabel = currentSubclass->classLabel;
          return true;
        }
        if (currentPosInSubclass < currentSubclass->tokens.size()) {
          t.ref = currentSubclass->tokens[currentPosInSubclass].first;
          t.hyp = currentSubclass->tokens[currentPosInSubclass].second;
          t.classLabel = currentSubclass->classLabel;
          return true;
        }
        currentSubclass = nullptr;
        currentPosInSubclass = -1;
      }
      currentPosInRoot++;
      if (currentPosInRoot >= root.tokens.size()) return false;
      if (!isEntityLabel(root.tokens[currentPosInRoot].first)) {
        t.ref = root.tokens[currentPosInRoot].first;
        t.hyp = root.tokens[currentPosInRoot].second;
        t.classLabel = TK_GLOBAL_CLASS;
        return true;
      }
      currentPosInSubclass = -1;
      for (size_t i = 0; i < root.label_alignments.size(); i++) {
        if (root.label_alignments[i].classLabel == root.tokens[currentPosInRoot].first) {
          currentSubclass = &root.label_alignments[i];
          break;
        }
      }
    }
  }
};
}  // namespace spec
