// Unigram and bigram accounting.
#include "spec.h"
#include "wer.h"
namespace spec {
bool isValidNgram(const std::string &t) {
  auto has = [&](const std::string &x) { return t.find(x) != std::string::npos; };
  return !has(INS) && !has(DEL) && !has(EPSILON) && !has("___");
}
bool isEntityLabel(const std::string &t) { return t.find("___") == 0; }

std::unordered_set<std::string> get_bigrams(wer_alignment &t) {
  std::vector<std::pair<std::string, std::string>> flat;
  for (auto &tk : t.tokens) {
    if (!isEntityLabel(tk.first)) {
      flat.push_back(tk);
      continue;
    }
    for (auto &l : t.label_alignments)
      if (l.classLabel == tk.first)
        for (auto &x : l.tokens) flat.push_back(x);
  }
  std::unordered_set<std::string> all;
  for (size_t i = 0; i + 1 < flat.size(); i++) {
    std::string ref = flat[i].first + " " + flat[i + 1].first;
    std::string hyp = flat[i].second + " " + flat[i + 1].second;
    if (isValidNgram(ref)) {
      t.ref_bigrams[ref] += 1;
      all.insert(ref);
    }
    if (isValidNgram(hyp)) {
      t.hyp_bigrams[hyp] += 1;
      all.insert(hyp);
    }
    t.bigram_tokens.push_back(std::make_pair(ref, hyp));
  }
  return all;
}

void UpdateHypCorrectAndAllwords(wer_alignment &t, std::map<std::string, uint64_t> &wrong, std::map<std::string, uint64_t> &correct,
                                 std::set<std::string> &all) {
  for (auto &tk : t.tokens) {
    if (isValidNgram(tk.second)) {
      if (tk.first == tk.second) {
        correct[tk.first]++;
        all.insert(tk.first);
      } else {
        wrong[tk.second]++;
        all.insert(tk.second);
      }
    }
    if (isEntityLabel(tk.first)) {
      for (auto &l : t.label_alignments) {
        if (l.classLabel == tk.first) {
          spec::UpdateHypCorrectAndAllwords(l, wrong, correct, all);
          break;
        }
      }
    }
  }
}

static int count(std::map<std::string, uint64_t> &m, const std::string &k) { return m.count(k) ? (int)m[k] : 0; }

static void tally(std::vector<std::pair<std::string, gram_error_counter>> &out, const std::string &w, int c, int d, int fp, int fn, int i,
                  int threshold) {
  gram_error_counter g(0, 0, 0, 0, 0);
  g.correct = c;
  g.del = d;
  g.subst_fp = fp;
  g.subst_fn = fn;
  g.ins = i;
  if (c + i + fp != 0) g.precision = (float)c / (float)(c + i + fp) * 100;
  if (c + d + fn != 0) g.recall = (float)c / (float)(c + d + fn) * 100;
  if (c + i + d + fp + fn >= threshold) out.push_back(std::make_pair(w, g));
}

void CalculatePrecisionRecall(wer_alignment &t, int threshold) {
  auto before = [](const std::pair<std::string, gram_error_counter> &l, const std::pair<std::string, gram_error_counter> &r) {
    if (l.second.precision != r.second.precision) return l.second.precision < r.second.precision;
    if (l.second.recall != r.second.recall) return l.second.recall < r.second.recall;
    return l.first < r.first;
  };
  std::set<std::string> all;
  std::map<std::string, uint64_t> correct, wrong, del, fp, fn, ins;
  spec::UpdateHypCorrectAndAllwords(t, wrong, correct, all);
  for (auto &w : t.del_words) {
    del[w]++;
    all.insert(w);
  }
  for (auto &w : t.sub_words) {
    fn[w.first]++;
    fp[w.second]++;
    all.insert(w.first);
    all.insert(w.second);
  }
  for (auto &w : t.ins_words) {
    ins[w]++;
    all.insert(w);
  }
  for (auto &w : all)
    tally(t.unigram_stats, w, count(correct, w), count(del, w), count(fp, w), count(fn, w), count(ins, w), threshold);
  std::sort(t.unigram_stats.begin(), t.unigram_stats.end(), before);

  std::unordered_set<std::string> pairs = spec::get_bigrams(t);
  std::map<std::string, uint64_t> bc, bd, bi, bfn, bfp;
  for (auto &b : t.bigram_tokens) {
    if (b.first == b.second) {
      bc[b.first]++;
    } else if (isValidNgram(b.first) && isValidNgram(b.second)) {
      bfn[b.first]++;
      bfp[b.second]++;
    }
    if (b.second.find(DEL) != std::string::npos) bd[b.first]++;
    if (b.first.find(INS) != std::string::npos) bi[b.second]++;
  }
  for (auto &b : pairs)
    tally(t.bigrams_stats, b, count(bc, b), count(bd, b), count(bfp, b), count(bfn, b), count(bi, b), threshold);
  std::sort(t.bigrams_stats.begin(), t.bigrams_stats.end(), before);
}
}  // namespace spec
