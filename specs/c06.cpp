// Error-rate arithmetic.
#include "spec.h"
#include "wer.h"
#include <limits>
namespace spec {
struct WerResult_ : WerResult {
  int NumErrors() { return insertions + deletions + substitutions; }
  float WER() {
    if (numWordsInReference <= 0) {
      if (numWordsInHypothesis <= 0) return -nanf("");
      return std::numeric_limits<float>::infinity();
    }
    return (float)(insertions + deletions + substitutions) / (float)numWordsInReference;
  }
};
struct wer_alignment_ : wer_alignment {
  int NumErrors() { return insertions + deletions + substitutions; }
  float WER() const {
    if (numWordsInReference <= 0) {
      if (numWordsInHypothesis <= 0) return 0;
      return std::numeric_limits<float>::infinity();
    }
    return (float)(insertions + deletions + substitutions) / (float)numWordsInReference;
  }
};
// correct / (correct + inserted + substituted) and correct / (correct + substituted + deleted)
void CalculatePrecisionRecall(wer_alignment &t, int) {
  int correct = t.numWordsInReference - t.deletions - t.substitutions;
  t.precision = (float)correct / (correct + t.insertions + t.substitutions);
  t.recall = (float)correct / (correct + t.deletions + t.substitutions);
}
}  // namespace spec
