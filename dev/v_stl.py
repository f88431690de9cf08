W='wer.cpp'; F='fstalign.cpp'
UP2="""        int ref_upper = 0;
        for (int i = 0; i < ref.size(); i++) {
          if (isupper(ref[i])) ref_upper++;
        }
        int hyp_upper = 0;
        for (int i = 0; i < hyp.size(); i++) {
          if (isupper(hyp[i])) hyp_upper++;
        }
"""
INC=('#include "wer.h"\n','#include "wer.h"\n#include <algorithm>\n#include <numeric>\n#include <tuple>\n')
V=[
('t-countif','same','C07 C09 C20 C22 C16 C21 C25',W,[INC,(UP2,"""        const auto isUp = [](unsigned char c) { return std::isupper(c) != 0; };
        const int ref_upper = std::count_if(ref.begin(), ref.end(), isUp);
        const int hyp_upper = std::count_if(hyp.begin(), hyp.end(), isUp);
""")]*1),
('t-countif2','same','C07 C09 C20 C22 C16 C21 C25',W,[INC,("void RecordCaseWer(","""static int CountUpper(const std::string &s) {
  return static_cast<int>(std::count_if(s.cbegin(), s.cend(), [](const char c) { return isupper(c); }));
}

void RecordCaseWer(""")]),
('t-anyof','same','C07 C09 C20 C22 C16 C21 C25',W,[INC,("""        for (const auto &c : hyp) {
          if (isupper(c)) {
            false_positive++;
            break;
          }
        }
""","""        if (std::any_of(hyp.begin(), hyp.end(), [](char c) { return isupper(c); })) {
          false_positive++;
        }
""")]),
('t-sb-class','same','C07 C09 C20 C22 C16 C21 C25',W,[("""    for (auto &a : class_results) {
      string label_name = a.first;
      WerResult wr = a.second;
      // logger""","""    for (const auto &[label_name, wr_ref] : class_results) {
      WerResult wr = wr_ref;
      // logger""")]),
('t-tryemplace','same','C07 C09 C20 C22 C16 C21 C25',W,[("""      if (class_results.find(label) == class_results.end()) {
        class_results[label] = {0, 0, 0, 0, 0};
      }

      class_results[label].numWordsInReference += a.numWordsInReference;
      class_results[label].insertions += a.insertions;
      class_results[label].deletions += a.deletions;
      class_results[label].substitutions += a.substitutions;
""","""      auto it = class_results.find(label);
      if (it == class_results.end()) {
        it = class_results.insert({label, WerResult{0, 0, 0, 0, 0}}).first;
      }
      WerResult &acc = it->second;
      acc.numWordsInReference += a.numWordsInReference;
      acc.insertions += a.insertions;
      acc.deletions += a.deletions;
      acc.substitutions += a.substitutions;
""")]),
('t-tryemplace2','same','C07 C09 C20 C22 C16 C21 C25',W,[("""      if (class_results.find(label) == class_results.end()) {
        class_results[label] = {0, 0, 0, 0, 0};
      }

      class_results[label].numWordsInReference += a.numWordsInReference;
      class_results[label].insertions += a.insertions;
      class_results[label].deletions += a.deletions;
      class_results[label].substitutions += a.substitutions;
""","""      WerResult &acc = class_results.try_emplace(label, WerResult{0, 0, 0, 0, 0}).first->second;
      acc.numWordsInReference += a.numWordsInReference;
      acc.insertions += a.insertions;
      acc.deletions += a.deletions;
      acc.substitutions += a.substitutions;
""")]),
('t-sent-helper','same','C07 C09 C20 C22 C16 C21 C25',W,[("""void RecordSentenceWer(""","""static inline bool StartsWith(const std::string &s, const char *prefix) { return s.rfind(prefix, 0) == 0; }

void RecordSentenceWer("""),("""      curr_wer.deletions += stitch.comment.rfind("del", 0) == 0;
      curr_wer.insertions += stitch.comment.rfind("ins", 0) == 0;
      curr_wer.substitutions += stitch.comment.rfind("sub", 0) == 0;
      curr_wer.numWordsInReference += stitch.comment.rfind("ins", 0) != 0;
""","""      if (StartsWith(stitch.comment, "del")) ++curr_wer.deletions;
      if (StartsWith(stitch.comment, "sub")) ++curr_wer.substitutions;
      if (StartsWith(stitch.comment, "ins")) {
        ++curr_wer.insertions;
      } else {
        ++curr_wer.numWordsInReference;
      }
""")]),
('t-sent-foreach','same','C07 C09 C20 C22 C16 C21 C25',W,[INC,("""  for (const auto &stitch : stitches) {
      curr_wer.deletions""","""  std::for_each(stitches.begin(), stitches.end(), [&](const auto &stitch) {
      curr_wer.deletions"""),("""        curr_wer = {0, 0, 0, 0, 0};
      }
  }
  // Add""","""        curr_wer = {0, 0, 0, 0, 0};
      }
  });
  // Add""")]),
('t-sent-compare','same','C07 C09 C20 C22 C16 C21 C25',W,[("""      curr_wer.deletions += stitch.comment.rfind("del", 0) == 0;
""","""      curr_wer.deletions += stitch.comment.compare(0, 3, "del") == 0;
""")]),
('t-sent-substr','same','C07 C09 C20 C22 C16 C21 C25',W,[("""      curr_wer.deletions += stitch.comment.rfind("del", 0) == 0;
      curr_wer.insertions += stitch.comment.rfind("ins", 0) == 0;
      curr_wer.substitutions += stitch.comment.rfind("sub", 0) == 0;
      curr_wer.numWordsInReference += stitch.comment.rfind("ins", 0) != 0;
""","""      const std::string kind = stitch.comment.substr(0, 3);
      curr_wer.deletions += kind == "del";
      curr_wer.insertions += kind == "ins";
      curr_wer.substitutions += kind == "sub";
      curr_wer.numWordsInReference += kind != "ins";
""")]),
('t-sent-count','same','C07 C09 C20 C22 C16 C21 C25',W,[("eos_punc.find(stitch.nlpRow.punctuation) != eos_punc.end()","eos_punc.count(stitch.nlpRow.punctuation) > 0")]),
('t-sent-eq','same','C07 C09 C20 C22 C16 C21 C25',W,[("eos_punc.find(stitch.nlpRow.punctuation) != eos_punc.end()",'stitch.nlpRow.punctuation == "." || stitch.nlpRow.punctuation == "?" || stitch.nlpRow.punctuation == "!"')]),
('t-spk-struct','same','C07 C09 C20 C22 C16 C21 C25',W,[("""  int insertions = 0;
  int deletions = 0;
  int substitutions = 0;
  int num_words_in_reference = 0;
  for (const""","""  WerResult segment{0, 0, 0, 0, 0};
  auto flush = [&]() {
    WerResult &acc = speaker_wers.emplace(last_speaker, WerResult{0, 0, 0, 0, 0}).first->second;
    acc.insertions += segment.insertions;
    acc.deletions += segment.deletions;
    acc.substitutions += segment.substitutions;
    acc.numWordsInReference += segment.numWordsInReference;
  };
  for (const"""),("""        if (speaker_wers.find(last_speaker) == speaker_wers.end()) {
          speaker_wers[last_speaker] = {0, 0, 0, 0, 0};
        }
        speaker_wers[last_speaker].insertions += insertions;
        speaker_wers[last_speaker].deletions += deletions;
        speaker_wers[last_speaker].substitutions += substitutions;
        speaker_wers[last_speaker].numWordsInReference += num_words_in_reference;

        insertions = 0;
        deletions = 0;
        substitutions = 0;
        num_words_in_reference = 0;
""","""        flush();
        segment = WerResult{0, 0, 0, 0, 0};
"""),("""    insertions += stitch.comment.rfind("ins", 0) == 0;
    deletions += stitch.comment.rfind("del", 0) == 0;
    substitutions += stitch.comment.rfind("sub", 0) == 0;
    num_words_in_reference += speaker_id.empty() ? 0 : 1;
""","""    segment.insertions += stitch.comment.rfind("ins", 0) == 0;
    segment.deletions += stitch.comment.rfind("del", 0) == 0;
    segment.substitutions += stitch.comment.rfind("sub", 0) == 0;
    if (!speaker_id.empty()) segment.numWordsInReference++;
"""),("""  if (speaker_wers.find(last_speaker) == speaker_wers.end()) {
    speaker_wers[last_speaker] = {0, 0, 0, 0, 0};
  }
  speaker_wers[last_speaker].insertions += insertions;
  speaker_wers[last_speaker].deletions += deletions;
  speaker_wers[last_speaker].substitutions += substitutions;
  speaker_wers[last_speaker].numWordsInReference += num_words_in_reference;
""","""  flush();
""")]),
('t-upd-findif','same','C07 C09 C20 C22 C16 C21 C25',W,[INC,("""      for (auto &label_alignment : topAlignment.label_alignments) {
        if (label_alignment.classLabel == class_label) {
          UpdateHypCorrectAndAllwords(label_alignment, hyp_words_counts, correct_words_counts, all_words);
          break;
        }
      }
""","""      auto found = std::find_if(topAlignment.label_alignments.begin(), topAlignment.label_alignments.end(),
                                [&](const auto &la) { return la.classLabel == class_label; });
      if (found != topAlignment.label_alignments.end()) {
        UpdateHypCorrectAndAllwords(*found, hyp_words_counts, correct_words_counts, all_words);
      }
""")]),
('t-upd-cont','same','C07 C09 C20 C22 C16 C21 C25',W,[("""    if ((tokens.first == tokens.second) && bigram_valid) {
      correct_words_counts[tokens.first] += 1;
      all_words.insert(tokens.first);
    }

    if ((tokens.first != tokens.second) && bigram_valid) {
      hyp_words_counts[tokens.second] += 1;
      all_words.insert(tokens.second);
    }

    // Handle entity labels
    if (isEntityLabel(tokens.first)) {
      auto class_label = tokens.first;
""","""    const auto &[ref_token, hyp_token] = tokens;
    if (bigram_valid) {
      auto &counts = ref_token == hyp_token ? correct_words_counts : hyp_words_counts;
      ++counts[hyp_token];
      all_words.insert(hyp_token);
    }

    // Handle entity labels
    if (isEntityLabel(ref_token)) {
      const auto &class_label = ref_token;
""")]),
('t-upd-cont2','same','C07 C09 C20 C22 C16 C21 C25',W,[("""    // Handle entity labels
    if (isEntityLabel(tokens.first)) {
      auto class_label = tokens.first;

      for (auto &label_alignment : topAlignment.label_alignments) {
        if (label_alignment.classLabel == class_label) {
          UpdateHypCorrectAndAllwords(label_alignment, hyp_words_counts, correct_words_counts, all_words);
          break;
        }
      }
    }
""","""    if (!isEntityLabel(tokens.first)) continue;

    size_t idx = 0;
    while (idx < topAlignment.label_alignments.size() &&
           topAlignment.label_alignments[idx].classLabel != tokens.first) {
      ++idx;
    }
    if (idx == topAlignment.label_alignments.size()) continue;
    UpdateHypCorrectAndAllwords(topAlignment.label_alignments[idx], hyp_words_counts, correct_words_counts, all_words);
""")]),
('t-sw-break','same','C07 C09 C20 C22 C16 C21 C25',W,[("""    if (switchNum < switch_indices.size()) {
      bool del""","""    if (static_cast<size_t>(switchNum) >= switch_indices.size()) break;
    {
      bool del"""),("""        switchNum++;
      }
    } else {
      break;
    }
""","""        switchNum++;
      }
    }
""")]),
('t-sw-bounds','same','C07 C09 C20 C22 C16 C21 C25',W,[("""      if (nlpRowIndex >= switch_indices[switchNum] - speaker_switch_context_size &&
          nlpRowIndex < switch_indices[switchNum] + speaker_switch_context_size) {
""","""      const int window_begin = switch_indices[switchNum] - speaker_switch_context_size;
      const int window_end = switch_indices[switchNum] + speaker_switch_context_size;
      if (window_begin <= nlpRowIndex && nlpRowIndex < window_end) {
"""),("nlpRowIndex != switch_indices[switchNum] - speaker_switch_context_size","nlpRowIndex > window_begin"),
("      if (nlpRowIndex >= switch_indices[switchNum] + speaker_switch_context_size) {","      if (window_end <= nlpRowIndex) {")]),
('t-sw-iter','same','C07 C09 C20 C22 C16 C21 C25',W,[("""  vector<int> switch_indices = GetSpeakerSwitchIndices(stitches);
""","""  const auto switch_indices = GetSpeakerSwitchIndices(stitches);
  auto next_switch = switch_indices.cbegin();
"""),("""  int switchNum = 0;
  WerResult wer""","""  WerResult wer"""),("if (switchNum < switch_indices.size()) {","if (next_switch != switch_indices.cend()) {"),
("""nlpRowIndex >= switch_indices[switchNum] - speaker_switch_context_size &&
          nlpRowIndex < switch_indices[switchNum] + speaker""","""nlpRowIndex >= *next_switch - speaker_switch_context_size &&
          nlpRowIndex < *next_switch + speaker"""),("nlpRowIndex != switch_indices[switchNum] -","nlpRowIndex != *next_switch -"),
("nlpRowIndex >= switch_indices[switchNum] + speaker_switch_context_size) {\n        switchNum++;","nlpRowIndex >= *next_switch + speaker_switch_context_size) {\n        ++next_switch;")]),
('t-tag-ref','same','C07 C09 C20 C22 C16 C21 C25',W,[("""    if (!stitch.nlpRow.wer_tags.empty()) {
      for (auto wer_tag : stitch.nlpRow.wer_tags) {
        wer_results.insert(std::pair<std::string, WerResult>(wer_tag.tag_id, {0, 0, 0, 0, 0}));
""","""    {
      for (const auto &wer_tag : stitch.nlpRow.wer_tags) {
        auto [entry, inserted] = wer_results.try_emplace(wer_tag.tag_id, WerResult{0, 0, 0, 0, 0});
        WerResult &acc = entry->second;
"""),("""        wer_results[wer_tag.tag_id].insertions += ins;
        wer_results[wer_tag.tag_id].deletions += del;
        wer_results[wer_tag.tag_id].substitutions += sub;
        if (!ins) {
          wer_results[wer_tag.tag_id].numWordsInReference += 1;
        }
""","""        acc.insertions += ins;
        acc.deletions += del;
        acc.substitutions += sub;
        acc.numWordsInReference += !ins;
""")]),
('t-tag-sb','same','C07 C09 C20 C22 C16 C21 C25',W,[("""  for (auto &a : wer_results) {
    string wer_id = a.first;
    WerResult wr = a.second;
    logger->info("Wer Entity""","""  for (auto it = wer_results.begin(); it != wer_results.end(); ++it) {
    const string &wer_id = it->first;
    WerResult &wr = it->second;
    logger->info("Wer Entity""")]),
('t-best-min','same','C23 C16 C21 C25',F,[("""    sort(best_alignments.begin(), best_alignments.end(), sort_alignment);
    return best_alignments[0];
""","""    std::sort(best_alignments.begin(), best_alignments.end(),
              [](const auto &lhs, const auto &rhs) { return lhs.WER() < rhs.WER(); });
    return best_alignments.front();
"""),("bool sort_alignment(const wer_alignment& a, const wer_alignment &b) { return a.WER() < b.WER(); }\n","")]),
('t-switch-approach','same','C23 C16 C21 C25',F,[("  if (best_alignments.size() > 0) {","  if (best_alignments.empty()) {\n    throw std::runtime_error(\"no alignment produced\");\n  }\n  {"),("""
  throw std::runtime_error("no alignment produced");
}""","}")]),
('t-ms-helper','same','C08 C16 C21 C25',F,[("vector<Stitching> make_stitches(","""static void SetTiming(Stitching &part, float start, float end) {
  part.start_ts = start;
  part.end_ts = end;
  part.duration = end - start;
}

vector<Stitching> make_stitches("""),("""        float ts = stof(hypNlpPart.ts);
        float endTs = stof(hypNlpPart.endTs);

        part.start_ts = ts;
        part.end_ts = endTs;
        part.duration = endTs - ts;
""","""        SetTiming(part, stof(hypNlpPart.ts), stof(hypNlpPart.endTs));
""")]),
('t-ms-ref','same','C08 C16 C21 C25',F,[("auto ctmPart = hyp_ctm_rows[hypRowIndex];","const auto &ctmPart = hyp_ctm_rows.at(hypRowIndex);"),
("auto hypNlpPart = hyp_nlp_rows[hypRowIndex];","const auto &hypNlpPart = hyp_nlp_rows.at(hypRowIndex);")]),
('t-ms-ternary','same','C08 C16 C21 C25',F,[("""      std::string ctmCopy = std::string(ctmPart.word);
      if (!use_case) {
        ctmCopy = UnicodeLowercase(ctmPart.word);
      }
""","""      const std::string ctmCopy = use_case ? ctmPart.word : UnicodeLowercase(ctmPart.word);
""")]),
]
