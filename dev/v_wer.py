F='wer.cpp'
CNT="""        int ref_upper = 0;
        for (int i = 0; i < ref.size(); i++) {
          if (isupper(ref[i])) ref_upper++;
        }
        int hyp_upper = 0;
        for (int i = 0; i < hyp.size(); i++) {
          if (isupper(hyp[i])) hyp_upper++;
        }
"""
LOOK="""    if (correct_bigram_counts.find(b) != correct_bigram_counts.end()) {
      correct = correct_bigram_counts[b];
    }
    if (del_bigram_counts.find(b) != del_bigram_counts.end()) {
      del = del_bigram_counts[b];
    }
    if (ins_bigram_counts.find(b) != ins_bigram_counts.end()) {
      ins = ins_bigram_counts[b];
    }
    if (subst_fn_bigram_counts.find(b) != subst_fn_bigram_counts.end()) {
      subst_fn = subst_fn_bigram_counts[b];
    }
    if (subst_fp_bigram_counts.find(b) != subst_fp_bigram_counts.end()) {
      subst_fp = subst_fp_bigram_counts[b];
    }
"""
V=[
('sw-startswith','same','C09',F,[("void RecordSentenceWer(","static bool HasComment(const Stitching &s, const char *what) { return s.comment.compare(0, 3, what) == 0; }\n\nvoid RecordSentenceWer("),
  ("curr_wer.deletions += stitch.comment.rfind(\"del\", 0) == 0;","if (HasComment(stitch, \"del\")) curr_wer.deletions++;"),
  ("curr_wer.insertions += stitch.comment.rfind(\"ins\", 0) == 0;","if (HasComment(stitch, \"ins\")) curr_wer.insertions++;"),
  ("curr_wer.substitutions += stitch.comment.rfind(\"sub\", 0) == 0;","if (HasComment(stitch, \"sub\")) curr_wer.substitutions++;"),
  ("curr_wer.numWordsInReference += stitch.comment.rfind(\"ins\", 0) != 0;","if (!HasComment(stitch, \"ins\")) curr_wer.numWordsInReference++;")]),
('sw-lambda','same','C09',F,[("      curr_wer.deletions += stitch.comment.rfind(\"del\", 0) == 0;\n","      auto starts = [&stitch](const string &p) { return stitch.comment.rfind(p, 0) == 0; };\n      curr_wer.deletions += starts(\"del\");\n"),
  ("curr_wer.insertions += stitch.comment.rfind(\"ins\", 0) == 0;","curr_wer.insertions += starts(\"ins\");"),
  ("curr_wer.numWordsInReference += stitch.comment.rfind(\"ins\", 0) != 0;","curr_wer.numWordsInReference += !starts(\"ins\");")]),
('sw-eoscount','same','C09',F,[("eos_punc.find(stitch.nlpRow.punctuation) != eos_punc.end()","eos_punc.count(stitch.nlpRow.punctuation) > 0")]),
('sw-eosor','same','C09',F,[("if (eos_punc.find(stitch.nlpRow.punctuation) != eos_punc.end()) {","const string &p = stitch.nlpRow.punctuation;\n      if (p == \".\" || p == \"?\" || p == \"!\") {")]),
('sw-rootref','same','C09',F,[("""  for (int i=0; i < sentence_wers.size(); i++) {
    RecordWerResult(jsonLogger::JsonLogger::getLogger().root["wer"]["sentenceWer"][i], sentence_wers[i]);""","""  int idx = 0;
  for (const auto &w : sentence_wers) {
    auto &root = jsonLogger::JsonLogger::getLogger().root;
    RecordWerResult(root["wer"]["sentenceWer"][idx++], w);""")]),
('sw-index','same','C09',F,[("  for (const auto &stitch : stitches) {\n      curr_wer.del","  for (size_t k = 0; k != stitches.size(); ++k) {\n      const auto &stitch = stitches[k];\n      curr_wer.del")]),
('spk-struct','same','C09',F,[("""  int insertions = 0;
  int deletions = 0;
  int substitutions = 0;
  int num_words_in_reference = 0;
  for (const auto &stitch : stitches) {
    string speaker_id""","""  WerResult seg = {0, 0, 0, 0, 0};
  for (const auto &stitch : stitches) {
    string speaker_id"""),
 ("""        speaker_wers[last_speaker].insertions += insertions;
        speaker_wers[last_speaker].deletions += deletions;
        speaker_wers[last_speaker].substitutions += substitutions;
        speaker_wers[last_speaker].numWordsInReference += num_words_in_reference;

        insertions = 0;
        deletions = 0;
        substitutions = 0;
        num_words_in_reference = 0;
""","""        auto &acc = speaker_wers[last_speaker];
        acc.insertions += seg.insertions;
        acc.deletions += seg.deletions;
        acc.substitutions += seg.substitutions;
        acc.numWordsInReference += seg.numWordsInReference;
        seg = {0, 0, 0, 0, 0};
"""),
 ("""    insertions += stitch.comment.rfind("ins", 0) == 0;
    deletions += stitch.comment.rfind("del", 0) == 0;
    substitutions += stitch.comment.rfind("sub", 0) == 0;
    num_words_in_reference += speaker_id.empty() ? 0 : 1;""","""    if (stitch.comment.rfind("ins", 0) == 0) {
      seg.insertions++;
    } else if (stitch.comment.rfind("del", 0) == 0) {
      seg.deletions++;
    } else if (stitch.comment.rfind("sub", 0) == 0) {
      seg.substitutions++;
    }
    if (!speaker_id.empty()) seg.numWordsInReference++;"""),
 ("""  speaker_wers[last_speaker].insertions += insertions;
  speaker_wers[last_speaker].deletions += deletions;
  speaker_wers[last_speaker].substitutions += substitutions;
  speaker_wers[last_speaker].numWordsInReference += num_words_in_reference;

  for""","""  speaker_wers[last_speaker].insertions += seg.insertions;
  speaker_wers[last_speaker].deletions += seg.deletions;
  speaker_wers[last_speaker].substitutions += seg.substitutions;
  speaker_wers[last_speaker].numWordsInReference += seg.numWordsInReference;

  for""")]),
('spk-flush','same','C09',F,[("  unordered_map<string, WerResult> speaker_wers;","""  unordered_map<string, WerResult> speaker_wers;
  auto flush = [&speaker_wers](const string &who, int i, int d, int s, int n) {
    if (speaker_wers.find(who) == speaker_wers.end()) {
      speaker_wers[who] = {0, 0, 0, 0, 0};
    }
    WerResult &r = speaker_wers[who];
    r.insertions += i;
    r.deletions += d;
    r.substitutions += s;
    r.numWordsInReference += n;
  };"""),
 ("""        if (speaker_wers.find(last_speaker) == speaker_wers.end()) {
          speaker_wers[last_speaker] = {0, 0, 0, 0, 0};
        }
        speaker_wers[last_speaker].insertions += insertions;
        speaker_wers[last_speaker].deletions += deletions;
        speaker_wers[last_speaker].substitutions += substitutions;
        speaker_wers[last_speaker].numWordsInReference += num_words_in_reference;

        insertions = 0;
        deletions = 0;
        substitutions = 0;
        num_words_in_reference = 0;
""","""        flush(last_speaker, insertions, deletions, substitutions, num_words_in_reference);
        insertions = deletions = substitutions = num_words_in_reference = 0;
"""),
 ("""  if (speaker_wers.find(last_speaker) == speaker_wers.end()) {
    speaker_wers[last_speaker] = {0, 0, 0, 0, 0};
  }
  speaker_wers[last_speaker].insertions += insertions;
  speaker_wers[last_speaker].deletions += deletions;
  speaker_wers[last_speaker].substitutions += substitutions;
  speaker_wers[last_speaker].numWordsInReference += num_words_in_reference;
""","  flush(last_speaker, insertions, deletions, substitutions, num_words_in_reference);\n")]),
('spk-emit','same','C09',F,[("""  for (auto &a : speaker_wers) {
    string speaker_id = a.first;
    WerResult wr = a.second;""","""  for (auto &[speaker_id, wr] : speaker_wers) {""")]),
('sws-helper','same','C09',F,[("""      if (nlpRowIndex >= switch_indices[switchNum] - speaker_switch_context_size &&
          nlpRowIndex < switch_indices[switchNum] + speaker_switch_context_size) {""","""      const int begin = switch_indices[switchNum] - speaker_switch_context_size;
      const int end = switch_indices[switchNum] + speaker_switch_context_size;
      if (begin <= nlpRowIndex && nlpRowIndex < end) {"""),
  ("else if (ins && nlpRowIndex != switch_indices[switchNum] - speaker_switch_context_size)","else if (ins && nlpRowIndex != begin)"),
  ("if (nlpRowIndex >= switch_indices[switchNum] + speaker_switch_context_size) {\n        switchNum++;","if (nlpRowIndex >= end) {\n        switchNum++;")]),
('sws-guard','same','C09',F,[("    if (switchNum < switch_indices.size()) {\n      bool del","    if (switchNum >= switch_indices.size()) break;\n    {\n      bool del"),("""        switchNum++;
      }
    } else {
      break;
    }
  }""","""        switchNum++;
      }
    }
  }""")]),
('sws-emptyret','same','C09',F,[("  for (const auto &stitch : stitches) {\n    if (switchNum < switch_indices.size()) {","  for (auto it = stitches.begin(); it != stitches.end(); ++it) {\n    const auto &stitch = *it;\n    if (switchNum < switch_indices.size()) {")]),
('gsi-while','same','C09',F,[("""    if (!speaker.empty() && speaker != lastSpeaker) {
      if (!lastSpeaker.empty()) {
        speakerSwitches.push_back(nlpRowIndex);
      }
      lastSpeaker = speaker;
    }
    if (stitch.comment.rfind("ins", 0) != 0) {
      nlpRowIndex++;
    }""","""    const bool known = !speaker.empty();
    if (known && speaker != lastSpeaker) {
      if (!lastSpeaker.empty()) speakerSwitches.emplace_back(nlpRowIndex);
      lastSpeaker = std::move(speaker);
    }
    nlpRowIndex += stitch.comment.rfind("ins", 0) != 0 ? 1 : 0;""")]),
('tag-ref','same','C09',F,[("""        wer_results[wer_tag.tag_id].insertions += ins;
        wer_results[wer_tag.tag_id].deletions += del;
        wer_results[wer_tag.tag_id].substitutions += sub;
        if (!ins) {
          wer_results[wer_tag.tag_id].numWordsInReference += 1;
        }""","""        WerResult &r = wer_results[wer_tag.tag_id];
        r.insertions += ins;
        r.deletions += del;
        r.substitutions += sub;
        if (!ins) ++r.numWordsInReference;""")]),
('tag-hoist','same','C09',F,[("""    if (!stitch.nlpRow.wer_tags.empty()) {
      for (auto wer_tag""","""    {
      for (const auto &wer_tag"""),]),
('tag-hoist2','same','C09',F,[("""    if (!stitch.nlpRow.wer_tags.empty()) {
      for (auto wer_tag : stitch.nlpRow.wer_tags) {
        wer_results.insert(std::pair<std::string, WerResult>(wer_tag.tag_id, {0, 0, 0, 0, 0}));
        // Check with rfind since other comments can be there
        bool del = stitch.comment.rfind("del", 0) == 0;
        bool ins = stitch.comment.rfind("ins", 0) == 0;
        bool sub = stitch.comment.rfind("sub", 0) == 0;""","""    const bool del = stitch.comment.rfind("del", 0) == 0;
    const bool ins = stitch.comment.rfind("ins", 0) == 0;
    const bool sub = stitch.comment.rfind("sub", 0) == 0;
    if (!stitch.nlpRow.wer_tags.empty()) {
      for (const auto &wer_tag : stitch.nlpRow.wer_tags) {
        wer_results.emplace(wer_tag.tag_id, WerResult{0, 0, 0, 0, 0});""")]),
('case-helper','same','C22',F,[("void RecordCaseWer(","static int CountUpper(const string &s) {\n  int n = 0;\n  for (char c : s) {\n    if (isupper(c)) n++;\n  }\n  return n;\n}\n\nvoid RecordCaseWer("),(CNT,"        const int ref_upper = CountUpper(ref);\n        const int hyp_upper = CountUpper(hyp);\n",F,1)]),
('case-countif','same','C22',F,[(CNT,"        int ref_upper = std::count_if(ref.begin(), ref.end(), [](char c) { return isupper(c); });\n        int hyp_upper = std::count_if(hyp.begin(), hyp.end(), [](char c) { return isupper(c); });\n",F,1),("#include \"wer.h\"","#include \"wer.h\"\n#include <algorithm>")]),
('case-anyof','same','C22',F,[("""        for (const auto &c : hyp) {
          if (isupper(c)) {
            false_positive++;
            break;
          }
        }""","        if (std::any_of(hyp.begin(), hyp.end(), [](char c) { return isupper(c); })) false_positive++;"),("#include \"wer.h\"","#include \"wer.h\"\n#include <algorithm>")]),
('case-refs','same','C22',F,[("    if (reftk == hyptk) {\n      if (ref_casing","    int &tp = reftk == hyptk ? true_positive : sub_tp;\n    int &fp = reftk == hyptk ? false_positive : sub_fp;\n    int &fn = reftk == hyptk ? false_negative : sub_fn;\n    {\n      if (ref_casing"),
  ("""    } else {
      if (ref_casing == "LC") {
        for (auto &&c : hyp) {
          if (isupper(c)) {
            sub_fp++;
            break;
          }
        }
      } else {
"""+CNT+"""        if (ref_upper == hyp_upper) sub_tp++;
        else if (ref_upper > hyp_upper) sub_fn++;
        else if (ref_upper < hyp_upper) sub_fp++;
      }
    }
""","    }\n"),("            false_positive++;\n            break;","            fp++;\n            break;"),("if (ref_upper == hyp_upper) true_positive++;\n        else if (ref_upper > hyp_upper) false_negative++;\n        else if (ref_upper < hyp_upper) false_positive++;","if (ref_upper == hyp_upper) tp++;\n        else if (ref_upper > hyp_upper) fn++;\n        else fp++;")]),
('case-skip','same','C22',F,[("    if (hyptk == DEL || reftk == INS) {\n      continue;\n    }\n","    const bool aligned = reftk != INS && hyptk != DEL;\n    if (!aligned) continue;\n")]),
('case-json','same','C22 C07',F,[("  jsonLogger::JsonLogger::getLogger().root[\"wer\"][\"caseWER\"][\"matching\"][\"precision\"] = base_precision;","  Json::Value &matching = jsonLogger::JsonLogger::getLogger().root[\"wer\"][\"caseWER\"][\"matching\"];\n  matching[\"precision\"] = base_precision;"),
   ("jsonLogger::JsonLogger::getLogger().root[\"wer\"][\"caseWER\"][\"matching\"]","matching",F),("  Json::Value &matching = matching;","  Json::Value &matching = jsonLogger::JsonLogger::getLogger().root[\"wer\"][\"caseWER\"][\"matching\"];")]),
('pr-lookup','same','C20 C06',F,[(LOOK,"""    auto count_of = [&b](const map<string, uint64_t> &m) -> int {
      auto found = m.find(b);
      return found == m.end() ? 0 : found->second;
    };
    correct = count_of(correct_bigram_counts);
    del = count_of(del_bigram_counts);
    ins = count_of(ins_bigram_counts);
    subst_fn = count_of(subst_fn_bigram_counts);
    subst_fp = count_of(subst_fp_bigram_counts);
""")]),
('pr-helper','same','C20 C06',F,[("void CalculatePrecisionRecall(","""static int CountOf(const map<string, uint64_t> &counts, const string &key) {
  auto it = counts.find(key);
  if (it == counts.end()) {
    return 0;
  }
  return static_cast<int>(it->second);
}

void CalculatePrecisionRecall("""),(LOOK,"""    correct = CountOf(correct_bigram_counts, b);
    del = CountOf(del_bigram_counts, b);
    ins = CountOf(ins_bigram_counts, b);
    subst_fn = CountOf(subst_fn_bigram_counts, b);
    subst_fp = CountOf(subst_fp_bigram_counts, b);
""")]),
('pr-count','same','C20',F,[("if (correct_words_counts.find(w) != correct_words_counts.end()) correct = correct_words_counts.find(w)->second;","if (correct_words_counts.count(w)) correct = correct_words_counts.at(w);")]),
('pr-insert','same','C20',F,[("    if (all_words.find(word) == all_words.end()) all_words.insert(word);\n","    all_words.insert(word);\n")]),
('pr-ratio','same','C06 C20',F,[("void CalculatePrecisionRecall(","static void SetRatios(gram_error_counter &c, int correct, int hyp_total, int ref_total) {\n  if (hyp_total != 0) c.precision = ((float)correct / (float)hyp_total) * 100;\n  if (ref_total != 0) c.recall = ((float)correct / (float)ref_total) * 100;\n}\n\nvoid CalculatePrecisionRecall("),
  ("""    if (correct + ins + subst_fp != 0) error_counter.precision = ((float)correct / (float)(correct + ins + subst_fp)) * 100;
    if ((correct + del + subst_fn) != 0) error_counter.recall = ((float)correct / (float)(correct + del + subst_fn)) * 100;
""","    SetRatios(error_counter, correct, correct + ins + subst_fp, correct + del + subst_fn);\n")]),
('pr-sortfn','same','C20 C06',F,[("""    if (l.second.precision != r.second.precision) {
      return l.second.precision < r.second.precision;
    } else if (l.second.recall != r.second.recall) {
      return l.second.recall < r.second.recall;
    } else {
      return l.first < r.first;
    }""","""    return std::tie(l.second.precision, l.second.recall, l.first) < std::tie(r.second.precision, r.second.recall, r.first);""")]),
('pr-sortfn2','same','C20 C06',F,[("""    if (l.second.precision != r.second.precision) {
      return l.second.precision < r.second.precision;
    } else if (l.second.recall != r.second.recall) {
      return l.second.recall < r.second.recall;
    } else {
      return l.first < r.first;
    }""","""    const auto &a = l.second;
    const auto &b = r.second;
    if (a.precision != b.precision) return a.precision < b.precision;
    if (a.recall != b.recall) return a.recall < b.recall;
    return l.first < r.first;""")]),
('pr-correct','same','C06',F,[("  int correct = topAlignment.numWordsInReference - topAlignment.deletions - topAlignment.substitutions;","  const int missed = topAlignment.deletions + topAlignment.substitutions;\n  int correct = topAlignment.numWordsInReference - missed;")]),
('hyp-else','same','C20',F,[("""    if ((tokens.first == tokens.second) && bigram_valid) {
      correct_words_counts[tokens.first] += 1;
      all_words.insert(tokens.first);
    }

    if ((tokens.first != tokens.second) && bigram_valid) {
      hyp_words_counts[tokens.second] += 1;
      all_words.insert(tokens.second);
    }
""","""    if (bigram_valid) {
      if (tokens.first == tokens.second) {
        correct_words_counts[tokens.first]++;
      } else {
        hyp_words_counts[tokens.second]++;
      }
      all_words.insert(tokens.second);
    }
""")]),
('hyp-findif','same','C20',F,[("""      for (auto &label_alignment : topAlignment.label_alignments) {
        if (label_alignment.classLabel == class_label) {
          UpdateHypCorrectAndAllwords(label_alignment, hyp_words_counts, correct_words_counts, all_words);
          break;
        }
      }""","""      auto found = std::find_if(topAlignment.label_alignments.begin(), topAlignment.label_alignments.end(),
                                [&](const wer_alignment &la) { return la.classLabel == class_label; });
      if (found != topAlignment.label_alignments.end()) {
        UpdateHypCorrectAndAllwords(*found, hyp_words_counts, correct_words_counts, all_words);
      }"""),("#include \"wer.h\"","#include \"wer.h\"\n#include <algorithm>")]),
('cls-ref','same','C09 C07',F,[("""      if (class_results.find(label) == class_results.end()) {
        class_results[label] = {0, 0, 0, 0, 0};
      }

      class_results[label].numWordsInReference += a.numWordsInReference;
      class_results[label].insertions += a.insertions;
      class_results[label].deletions += a.deletions;
      class_results[label].substitutions += a.substitutions;""","""      auto &res = class_results.emplace(label, WerResult{0, 0, 0, 0, 0}).first->second;
      res.numWordsInReference += a.numWordsInReference;
      res.insertions += a.insertions;
      res.deletions += a.deletions;
      res.substitutions += a.substitutions;""")]),
('cls-try','same','C09',F,[("""      if (class_results.find(label) == class_results.end()) {
        class_results[label] = {0, 0, 0, 0, 0};
      }
""","""      if (!class_results.count(label)) {
        class_results.insert({label, {0, 0, 0, 0, 0}});
      }
""")]),
('rec-best','same','C07',F,[("  jsonLogger::JsonLogger::getLogger().root[\"wer\"][\"bestWER\"][\"wer\"] = topAlignment.WER();","  auto &best = jsonLogger::JsonLogger::getLogger().root[\"wer\"][\"bestWER\"];\n  best[\"wer\"] = topAlignment.WER();"),
 ("  jsonLogger::JsonLogger::getLogger().root[\"wer\"][\"bestWER\"][\"insertions\"]","  best[\"insertions\"]"),("  jsonLogger::JsonLogger::getLogger().root[\"wer\"][\"bestWER\"][\"deletions\"]","  best[\"deletions\"]")]),
('rec-order','same','C07',F,[("""  json["insertions"] = wr.insertions;
  json["deletions"] = wr.deletions;
""","""  json["deletions"] = wr.deletions;
  json["insertions"] = wr.insertions;
""")]),
('rec-empty','same','C07 C09',F,[("  if (topAlignment.label_alignments.size() > 0) {\n    logger->info","  if (!topAlignment.label_alignments.empty()) {\n    logger->info")]),
('ng-json','same','C07 C20',F,[("""    jsonLogger::JsonLogger::getLogger().root["wer"]["bigrams"][word]["correct"] = u.correct;""","""    Json::Value &node = jsonLogger::JsonLogger::getLogger().root["wer"]["bigrams"][word];
    node["correct"] = u.correct;"""),("""    jsonLogger::JsonLogger::getLogger().root["wer"]["bigrams"][word]["recall"] = u.recall;""","""    node["recall"] = u.recall;""")]),
('ng-helper','same','C07 C20',F,[("""    jsonLogger::JsonLogger::getLogger().root["wer"]["bigrams"][word]["correct"] = u.correct;
    jsonLogger::JsonLogger::getLogger().root["wer"]["bigrams"][word]["insertions"] = u.ins;
    jsonLogger::JsonLogger::getLogger().root["wer"]["bigrams"][word]["deletions"] = u.del;
    jsonLogger::JsonLogger::getLogger().root["wer"]["bigrams"][word]["substitutions_fp"] = u.subst_fp;
    jsonLogger::JsonLogger::getLogger().root["wer"]["bigrams"][word]["substitutions_fn"] = u.subst_fn;
    jsonLogger::JsonLogger::getLogger().root["wer"]["bigrams"][word]["precision"] = u.precision;
    jsonLogger::JsonLogger::getLogger().root["wer"]["bigrams"][word]["recall"] = u.recall;
""","""    LogGram("bigrams", word, u);
"""),("""    jsonLogger::JsonLogger::getLogger().root["wer"]["unigrams"][word]["correct"] = u.correct;
    jsonLogger::JsonLogger::getLogger().root["wer"]["unigrams"][word]["insertions"] = u.ins;
    jsonLogger::JsonLogger::getLogger().root["wer"]["unigrams"][word]["deletions"] = u.del;
    jsonLogger::JsonLogger::getLogger().root["wer"]["unigrams"][word]["substitutions_fp"] = u.subst_fp;
    jsonLogger::JsonLogger::getLogger().root["wer"]["unigrams"][word]["substitutions_fn"] = u.subst_fn;
    jsonLogger::JsonLogger::getLogger().root["wer"]["unigrams"][word]["precision"] = u.precision;
    jsonLogger::JsonLogger::getLogger().root["wer"]["unigrams"][word]["recall"] = u.recall;
""","""    LogGram("unigrams", word, u);
"""),("void JsonLogUnigramBigramStats(","""static void LogGram(const char *kind, const string &word, const gram_error_counter &u) {
  auto &entry = jsonLogger::JsonLogger::getLogger().root["wer"][kind][word];
  entry["correct"] = u.correct;
  entry["insertions"] = u.ins;
  entry["deletions"] = u.del;
  entry["substitutions_fp"] = u.subst_fp;
  entry["substitutions_fn"] = u.subst_fn;
  entry["precision"] = u.precision;
  entry["recall"] = u.recall;
}

void JsonLogUnigramBigramStats(""")]),
('sbs-tern','same','C18',F,[("""    string eff_class = "";
    if (tk_classLabel != TK_GLOBAL_CLASS) {
      eff_class = tk_classLabel;
    }
""","""    const string eff_class = tk_classLabel == TK_GLOBAL_CLASS ? "" : tk_classLabel;
""")]),
('sbs-append','same','C18',F,[("""      tk_wer_tags = tk_wer_tags + "###" + wer_tag.tag_id + "_" + wer_tag.entity_type + "###|";""","""      tk_wer_tags += "###" + wer_tag.tag_id + "_" + wer_tag.entity_type + "###|";""")]),
('sbs-append2','same','C18',F,[("""      tk_wer_tags = tk_wer_tags + "###" + wer_tag.tag_id + "_" + wer_tag.entity_type + "###|";""","""      tk_wer_tags.append("###");
      tk_wer_tags.append(wer_tag.tag_id);
      tk_wer_tags.append("_").append(wer_tag.entity_type).append("###|");""")]),
('sbs-invert','same','C18',F,[("""    if (ref_tk != hyp_tk) {
      tag = "ERR";
""","""    const bool is_error = ref_tk != hyp_tk;
    if (is_error) {
      tag = "ERR";
"""),("if (line_err == 0) {\n        line_err = offset;\n      }","line_err = line_err == 0 ? offset : line_err;")]),
('sbs-opset','same','C18',F,[("if (!ref_tk.empty() && op_set.find(ref_tk) == op_set.end()) {","if (!ref_tk.empty() && !op_set.count(ref_tk)) {"),("      if (!hyp_tk.empty() && op_set.find(hyp_tk) == op_set.end()) {\n        hyp_err += \" \" + hyp_tk;\n      }","      const bool hyp_is_word = !hyp_tk.empty() && op_set.count(hyp_tk) == 0;\n      if (hyp_is_word) hyp_err = hyp_err + \" \" + hyp_tk;")]),
('sbs-endl','same','C18',F,[("ref_tk, hyp_tk, tag, eff_class, tk_wer_tags) << endl;","ref_tk, hyp_tk, tag, eff_class, tk_wer_tags) << \"\\n\";")]),
('sbs-ctor','same','C18',F,[("  ofstream myfile;\n  myfile.open(sbs_filename);\n","  ofstream myfile(sbs_filename);\n")]),
('sbs-emit','same','C18',F,[("""  for (const auto &group : groups_err) {
    myfile << fmt::format("{0:>20}\\t{1}", group.first, group.second) << endl;
  }""","""  for (size_t g = 0; g < groups_err.size(); ++g) {
    myfile << fmt::format("{0:>20}\\t{1}", groups_err[g].first, groups_err[g].second) << endl;
  }""")]),
('grp-push','same','C18',F,[("groups.emplace_back(line, fmt::format(\"{0}<->{1}\", ref, hyp));","groups.push_back(std::make_pair(line, ref + \"<->\" + hyp));")]),
('grp-clear','same','C18',F,[("  line = 0;\n  ref = \"\";\n  hyp = \"\";","  ref.clear();\n  hyp.clear();\n  line = 0;")]),
]
