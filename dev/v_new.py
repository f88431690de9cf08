def whole(file, start, new):
    s = open('/repo/src/' + file).read()
    i = s.index(start)
    j = s.index('{', i); d = 0
    while True:
        if s[j] == '{': d += 1
        if s[j] == '}':
            d -= 1
            if d == 0: break
        j += 1
    return (s[i:j + 1], new, file)
W='wer.cpp'
V=[
('n-pr-split','same','C20 C06',W,[("""  for (auto &word : topAlignment.del_words) {
    del_words_counts[word] += 1;
    if (all_words.find(word) == all_words.end()) all_words.insert(word);
  }
  for (auto &word : topAlignment.sub_words) {
    subst_fn_words_counts[word.first] += 1;
    subst_fp_words_counts[word.second] += 1;
    if (all_words.find(word.first) == all_words.end()) all_words.insert(word.first);
    if (all_words.find(word.second) == all_words.end()) all_words.insert(word.second);
  }
  for (auto &word : topAlignment.ins_words) {
    ins_words_counts[word] += 1;
    if (all_words.find(word) == all_words.end()) {
      all_words.insert(word);
    }
  }
""","""  auto tallyWord = [&all_words](map<string, uint64_t> &counts, const string &word) {
    ++counts[word];
    all_words.insert(word);
  };

  for (const auto &word : topAlignment.ins_words) {
    tallyWord(ins_words_counts, word);
  }
  for (const auto &word : topAlignment.del_words) {
    tallyWord(del_words_counts, word);
  }
  for (const auto &substitution : topAlignment.sub_words) {
    tallyWord(subst_fn_words_counts, substitution.first);
    tallyWord(subst_fp_words_counts, substitution.second);
  }
""")]),
('n-pr-getcount','same','C20 C06',W,[("""    if (correct_words_counts.find(w) != correct_words_counts.end()) correct = correct_words_counts.find(w)->second;
    if (del_words_counts.find(w) != del_words_counts.end()) del = del_words_counts.find(w)->second;
    if (subst_fn_words_counts.find(w) != subst_fn_words_counts.end()) subst_fn = subst_fn_words_counts.find(w)->second;
    if (subst_fp_words_counts.find(w) != subst_fp_words_counts.end()) subst_fp = subst_fp_words_counts.find(w)->second;
    if (ins_words_counts.find(w) != ins_words_counts.end()) ins = ins_words_counts.find(w)->second;
""","""    correct = CountOf(correct_words_counts, w);
    del = CountOf(del_words_counts, w);
    subst_fn = CountOf(subst_fn_words_counts, w);
    subst_fp = CountOf(subst_fp_words_counts, w);
    ins = CountOf(ins_words_counts, w);
"""),("""void CalculatePrecisionRecall(wer""","""namespace {
uint64_t CountOf(const map<string, uint64_t> &counts, const string &key) {
  const auto it = counts.find(key);
  return it == counts.end() ? 0 : it->second;
}
}  // namespace

void CalculatePrecisionRecall(wer"""),("""    if (correct_bigram_counts.find(b) != correct_bigram_counts.end()) {
      correct = correct_bigram_counts[b];
    }
    if (del_bigram_counts.find(b) != del_bigram_counts.end()) {
      del = del_bigram_counts[b];
    }
    if (ins_bigram_counts.find(b) != ins_bigram_counts.end()) {
      ins = ins_bigram_counts[b];
    }
    if (subst_fn_bigram_counts.find(b) != subst_fn_bigram_counts.end()) {
      subst_fn = subst_fn_bigram_counts[b];
    }
    if (subst_fp_bigram_counts.find(b) != subst_fp_bigram_counts.end()) {
      subst_fp = subst_fp_bigram_counts[b];
    }
""","""    correct = CountOf(correct_bigram_counts, b);
    del = CountOf(del_bigram_counts, b);
    ins = CountOf(ins_bigram_counts, b);
    subst_fn = CountOf(subst_fn_bigram_counts, b);
    subst_fp = CountOf(subst_fp_bigram_counts, b);
""")]),
('n-pr-phases','same','C20 C06',W,[("""  unordered_set<string> all_bigrams = get_bigrams(topAlignment);
  map<string, uint64_t> correct_bigram_counts;""","""  CalculateBigramStats(topAlignment, threshold);
  std::sort(topAlignment.bigrams_stats.begin(), topAlignment.bigrams_stats.end(), precision_recall_compare);
}

static void CalculateBigramStats(wer_alignment &topAlignment, int threshold) {
  int correct, del, subst_fp, subst_fn, ins;
  unordered_set<string> all_bigrams = get_bigrams(topAlignment);
  map<string, uint64_t> correct_bigram_counts;"""),("""  // sort in asceding order with precision then recall
  std::sort(topAlignment.bigrams_stats.begin(), topAlignment.bigrams_stats.end(), precision_recall_compare);

  return;
}""","""}"""),("""void CalculatePrecisionRecall(wer""","""static void CalculateBigramStats(wer_alignment &topAlignment, int threshold);

void CalculatePrecisionRecall(wer""")]),
('n-pr-top','same','C06 C20',W,[("""  int correct = topAlignment.numWordsInReference - topAlignment.deletions - topAlignment.substitutions;
  topAlignment.precision = (float)correct / (correct + topAlignment.insertions + topAlignment.substitutions);
  topAlignment.recall = (float)correct /  // Recall = C /(C + S + D)
                         (correct + topAlignment.substitutions + topAlignment.deletions);
""","""  int correct = topAlignment.numWordsInReference - (topAlignment.deletions + topAlignment.substitutions);
  const int hypothesis_words = correct + topAlignment.substitutions + topAlignment.insertions;
  const int reference_words = correct + topAlignment.deletions + topAlignment.substitutions;
  topAlignment.precision = static_cast<float>(correct) / hypothesis_words;
  topAlignment.recall = static_cast<float>(correct) / reference_words;
""")]),
('n-upd-rewrite','same','C20',W,[whole(W,'void UpdateHypCorrectAndAllwords','''void UpdateHypCorrectAndAllwords(wer_alignment &topAlignment, map<string, uint64_t> &hyp_words_counts,
                                 map<string, uint64_t> &correct_words_counts, set<string> &all_words) {
  for (const auto &token_pair : topAlignment.tokens) {
    const string &ref = token_pair.first;
    const string &hyp = token_pair.second;

    if (isValidNgram(hyp)) {
      all_words.insert(hyp);
      if (ref == hyp) {
        correct_words_counts[hyp]++;
      } else {
        hyp_words_counts[hyp]++;
      }
    }

    // Handle entity labels
    if (!isEntityLabel(ref)) {
      continue;
    }

    auto match = std::find_if(topAlignment.label_alignments.begin(), topAlignment.label_alignments.end(),
                              [&ref](const wer_alignment &candidate) { return candidate.classLabel == ref; });
    if (match != topAlignment.label_alignments.end()) {
      UpdateHypCorrectAndAllwords(*match, hyp_words_counts, correct_words_counts, all_words);
    }
  }
}''')]),
('n-spk-rewrite','same','C09',W,[whole(W,'void RecordSpeakerWer','''void RecordSpeakerWer(const vector<Stitching> &stitches) {
  // Note: stitches must have already been aligned to NLP rows
  auto logger = logger::GetOrCreateLogger("wer");
  logger->set_level(spdlog::level::info);

  unordered_map<string, WerResult> speaker_wers;
  string last_speaker = "";
  WerResult segment = {0, 0, 0, 0, 0};

  auto flush_segment = [&]() {
    WerResult &total = speaker_wers.insert({last_speaker, {0, 0, 0, 0, 0}}).first->second;
    total.insertions += segment.insertions;
    total.deletions += segment.deletions;
    total.substitutions += segment.substitutions;
    total.numWordsInReference += segment.numWordsInReference;
  };

  for (const auto &stitch : stitches) {
    const string &speaker_id = stitch.nlpRow.speakerId;
    const bool has_speaker = !speaker_id.empty();
    if (has_speaker && speaker_id != last_speaker) {
      if (!last_speaker.empty()) {
        flush_segment();
        segment = {0, 0, 0, 0, 0};
      }
      last_speaker = speaker_id;
    }

    if (stitch.comment.rfind("ins", 0) == 0) {
      segment.insertions++;
    } else if (stitch.comment.rfind("del", 0) == 0) {
      segment.deletions++;
    } else if (stitch.comment.rfind("sub", 0) == 0) {
      segment.substitutions++;
    }
    if (has_speaker) {
      segment.numWordsInReference++;
    }
  }
  flush_segment();

  auto &speaker_json = jsonLogger::JsonLogger::getLogger().root["wer"]["speakerWER"];
  for (auto &entry : speaker_wers) {
    RecordWerResult(speaker_json[entry.first], entry.second);
    speaker_json[entry.first]["meta"] = Json::objectValue;
  }
}''')]),
('n-case-rewrite','same','C22',W,[whole(W,'void RecordCaseWer','''namespace {
struct CaseCounts {
  int true_positive = 0;
  int false_positive = 0;
  int false_negative = 0;
};

int CountUpper(const string &word) {
  return std::count_if(word.begin(), word.end(), [](char c) { return isupper(c); });
}

void UpdateCaseCounts(CaseCounts &counts, const string &ref, const string &hyp, const string &ref_casing) {
  const int hyp_upper = CountUpper(hyp);
  if (ref_casing == "LC") {
    if (hyp_upper > 0) {
      counts.false_positive++;
    }
    return;
  }
  const int ref_upper = CountUpper(ref);
  if (ref_upper > hyp_upper) {
    counts.false_negative++;
  } else if (ref_upper < hyp_upper) {
    counts.false_positive++;
  } else {
    counts.true_positive++;
  }
}

void WriteCaseCounts(Json::Value &json, const CaseCounts &counts) {
  json["precision"] = float(counts.true_positive) / float(counts.true_positive + counts.false_positive);
  json["recall"] = float(counts.true_positive) / float(counts.true_positive + counts.false_negative);
  json["true_positive"] = counts.true_positive;
  json["false_positive"] = counts.false_positive;
  json["false_negative"] = counts.false_negative;
}
}  // namespace

void RecordCaseWer(const vector<Stitching> &aligned_stitches) {
  CaseCounts matching;
  CaseCounts substituted;

  for (const auto &stitch : aligned_stitches) {
    if (stitch.hyptk == DEL || stitch.reftk == INS) {
      continue;
    }
    CaseCounts &counts = stitch.reftk == stitch.hyptk ? matching : substituted;
    UpdateCaseCounts(counts, stitch.nlpRow.token, stitch.hyp_orig, stitch.nlpRow.casing);
  }

  CaseCounts all;
  all.true_positive = matching.true_positive + substituted.true_positive;
  all.false_positive = matching.false_positive + substituted.false_positive;
  all.false_negative = matching.false_negative + substituted.false_negative;

  auto &json = jsonLogger::JsonLogger::getLogger().root["wer"]["caseWER"];
  WriteCaseCounts(json["matching"], matching);
  WriteCaseCounts(json["all"], all);
}''')]),
('n-sws-rewrite','same','C09',W,[("""      if (nlpRowIndex >= switch_indices[switchNum] - speaker_switch_context_size &&
          nlpRowIndex < switch_indices[switchNum] + speaker_switch_context_size) {
        if (!ins) {
          wer.numWordsInReference++;
        }

        if (del) {
          wer.deletions++;
        } else if (sub) {
          wer.substitutions++;
        } else if (ins && nlpRowIndex != switch_indices[switchNum] - speaker_switch_context_size) {
          // Edge case: insertions at the start of the speaker switch context (nlp row hasn't officially started)
          wer.insertions++;
        }
      }
      if (!ins) {
        nlpRowIndex++;
      }
      if (nlpRowIndex >= switch_indices[switchNum] + speaker_switch_context_size) {
        switchNum++;
      }
""","""      const int window_start = switch_indices[switchNum] - speaker_switch_context_size;
      const int window_end = switch_indices[switchNum] + speaker_switch_context_size;
      if (window_start <= nlpRowIndex && nlpRowIndex < window_end) {
        wer.deletions += del;
        wer.substitutions += sub;
        if (ins) {
          // Edge case: insertions at the start of the speaker switch context (nlp row hasn't officially started)
          wer.insertions += nlpRowIndex != window_start;
        } else {
          ++wer.numWordsInReference;
        }
      }
      nlpRowIndex += !ins;
      if (nlpRowIndex >= window_end) {
        ++switchNum;
      }
""")]),
('n-tag-rewrite','same','C09',W,[("""    if (!stitch.nlpRow.wer_tags.empty()) {
      for (auto wer_tag : stitch.nlpRow.wer_tags) {
        wer_results.insert(std::pair<std::string, WerResult>(wer_tag.tag_id, {0, 0, 0, 0, 0}));
        // Check with rfind since other comments can be there
        bool del = stitch.comment.rfind("del", 0) == 0;
        bool ins = stitch.comment.rfind("ins", 0) == 0;
        bool sub = stitch.comment.rfind("sub", 0) == 0;
        wer_results[wer_tag.tag_id].insertions += ins;
        wer_results[wer_tag.tag_id].deletions += del;
        wer_results[wer_tag.tag_id].substitutions += sub;
        if (!ins) {
          wer_results[wer_tag.tag_id].numWordsInReference += 1;
        }
      }
    }
""","""    // Check with rfind since other comments can be there
    const bool del = stitch.comment.rfind("del", 0) == 0;
    const bool ins = stitch.comment.rfind("ins", 0) == 0;
    const bool sub = stitch.comment.rfind("sub", 0) == 0;
    for (const auto &wer_tag : stitch.nlpRow.wer_tags) {
      auto it = wer_results.find(wer_tag.tag_id);
      if (it == wer_results.end()) {
        it = wer_results.emplace(wer_tag.tag_id, WerResult{0, 0, 0, 0, 0}).first;
      }
      WerResult &result = it->second;
      result.insertions += ins ? 1 : 0;
      result.deletions += del ? 1 : 0;
      result.substitutions += sub ? 1 : 0;
      result.numWordsInReference += ins ? 0 : 1;
    }
""")]),
('n-sbs-rewrite','same','C18',W,[("""  for (const auto &p_stitch: stitches) {
    string tk_classLabel = p_stitch.classLabel;
    string tk_wer_tags = "";
    auto wer_tags = p_stitch.nlpRow.wer_tags;
    for (auto wer_tag: wer_tags) {
      tk_wer_tags = tk_wer_tags + "###" + wer_tag.tag_id + "_" + wer_tag.entity_type + "###|";
    }
    string ref_tk = p_stitch.reftk;
    string hyp_tk = p_stitch.hyptk;
    string tag = "";

    if (ref_tk == NOOP) {
      continue;
    }
""","""  for (const auto &p_stitch: stitches) {
    const string &ref_tk = p_stitch.reftk;
    const string &hyp_tk = p_stitch.hyptk;
    if (ref_tk == NOOP) {
      continue;
    }

    const string &tk_classLabel = p_stitch.classLabel;
    const string tk_wer_tags = FormatWerTags(p_stitch.nlpRow.wer_tags);
    string tag = "";
"""),("""void WriteSbs(""","""static string FormatWerTags(const vector<WerTagEntry> &wer_tags) {
  std::ostringstream formatted;
  for (const auto &wer_tag : wer_tags) {
    formatted << "###" << wer_tag.tag_id << "_" << wer_tag.entity_type << "###|";
  }
  return formatted.str();
}

void WriteSbs("""),("""    string eff_class = "";
    if (tk_classLabel != TK_GLOBAL_CLASS) {
      eff_class = tk_classLabel;
    }
""","""    const string eff_class = tk_classLabel == TK_GLOBAL_CLASS ? "" : tk_classLabel;
""")]),
('n-sbs-isop','same','C18',W,[("""  std::set<std::string> op_set = {"<ins>", "<del>", "<sub>"};
""","""  auto is_word = [](const string &token) {
    return !token.empty() && token != "<ins>" && token != "<del>" && token != "<sub>";
  };
"""),("""      if (!ref_tk.empty() && op_set.find(ref_tk) == op_set.end()) {
        ref_err += ref_tk + " ";
      }
      if (!hyp_tk.empty() && op_set.find(hyp_tk) == op_set.end()) {
        hyp_err += " " + hyp_tk;
      }""","""      if (is_word(ref_tk)) {
        ref_err.append(ref_tk).append(" ");
      }
      if (is_word(hyp_tk)) {
        hyp_err.append(" ").append(hyp_tk);
      }""")]),
('n-json-ref','same','C07 C20',W,[whole(W,'void JsonLogUnigramBigramStats','''static void LogGramStats(Json::Value &json, const vector<pair<string, gram_error_counter>> &stats) {
  for (const auto &entry : stats) {
    Json::Value &gram = json[entry.first];
    const gram_error_counter &counts = entry.second;
    gram["correct"] = counts.correct;
    gram["insertions"] = counts.ins;
    gram["deletions"] = counts.del;
    gram["substitutions_fp"] = counts.subst_fp;
    gram["substitutions_fn"] = counts.subst_fn;
    gram["precision"] = counts.precision;
    gram["recall"] = counts.recall;
  }
}

void JsonLogUnigramBigramStats(wer_alignment &topAlignment) {
  auto &wer_json = jsonLogger::JsonLogger::getLogger().root["wer"];
  if (!topAlignment.unigram_stats.empty()) {
    LogGramStats(wer_json["unigrams"], topAlignment.unigram_stats);
  }
  if (!topAlignment.bigrams_stats.empty()) {
    LogGramStats(wer_json["bigrams"], topAlignment.bigrams_stats);
  }
}''')]),
('n-rw-cls','same','C07 C09',W,[("""    for (auto &a : topAlignment.label_alignments) {
      string class_label_id = a.classLabel;
      string label = GetLabelNameFromClassLabel(class_label_id);
      int numStitches = label.size();
      largestClassNameSize = std::max(largestClassNameSize, numStitches);

      if (class_results.find(label) == class_results.end()) {
        class_results[label] = {0, 0, 0, 0, 0};
      }

      class_results[label].numWordsInReference += a.numWordsInReference;
      class_results[label].insertions += a.insertions;
      class_results[label].deletions += a.deletions;
      class_results[label].substitutions += a.substitutions;
    }
""","""    for (const auto &a : topAlignment.label_alignments) {
      const string label = GetLabelNameFromClassLabel(a.classLabel);
      if (static_cast<int>(label.size()) > largestClassNameSize) {
        largestClassNameSize = label.size();
      }

      // value-initialised (all zeros) the first time a class is seen
      WerResult &result = class_results[label];
      result.insertions += a.insertions;
      result.deletions += a.deletions;
      result.substitutions += a.substitutions;
      result.numWordsInReference += a.numWordsInReference;
    }
""")]),
('n-walk-tally','same','C01','Walker.cpp',[("""        global_wer_alignment.insertions++;
        global_wer_alignment.numWordsInHypothesis++;

        global_wer_alignment.hyp_words.push_back(olabel);
        global_wer_alignment.ref_words.push_back(INS);

        // keep track of the attractors
        global_wer_alignment.ins_words.push_back(olabel);

        if (class_label_wer_info != nullptr) {
          class_label_wer_info->insertions++;
          class_label_wer_info->numWordsInHypothesis++;

          class_label_wer_info->hyp_words.push_back(olabel);
          class_label_wer_info->ref_words.push_back(INS);

          // keep track of the attractors
          class_label_wer_info->ins_words.push_back(olabel);
          class_label_wer_info->tokens.push_back(make_pair(INS, olabel));
        } else {
          global_wer_alignment.tokens.push_back(make_pair(INS, olabel));
        }
""","""        RecordInsertion(global_wer_alignment, olabel);
        if (class_label_wer_info != nullptr) {
          RecordInsertion(*class_label_wer_info, olabel);
        }
        wer_alignment &owner = class_label_wer_info != nullptr ? *class_label_wer_info : global_wer_alignment;
        owner.tokens.emplace_back(INS, olabel);
"""),("""        global_wer_alignment.deletions++;
        global_wer_alignment.numWordsInReference++;
        global_wer_alignment.ref_words.push_back(ilabel);
        global_wer_alignment.hyp_words.push_back(DEL);

        // keep track of the repellant words
        global_wer_alignment.del_words.push_back(ilabel);

        if (class_label_wer_info != nullptr) {
          class_label_wer_info->deletions++;
          class_label_wer_info->numWordsInReference++;
          class_label_wer_info->ref_words.push_back(ilabel);
          class_label_wer_info->hyp_words.push_back(DEL);

          // keep track of the repellant words
          class_label_wer_info->del_words.push_back(ilabel);
          class_label_wer_info->tokens.push_back(make_pair(ilabel, DEL));
        } else {
          global_wer_alignment.tokens.push_back(make_pair(ilabel, DEL));
        }
""","""        RecordDeletion(global_wer_alignment, ilabel);
        if (class_label_wer_info != nullptr) {
          RecordDeletion(*class_label_wer_info, ilabel);
        }
        wer_alignment &owner = class_label_wer_info != nullptr ? *class_label_wer_info : global_wer_alignment;
        owner.tokens.emplace_back(ilabel, DEL);
"""),("""wer_alignment Walker::GetDetailsFromTopCandidates""","""namespace {
void RecordInsertion(wer_alignment &alignment, const string &hyp_word) {
  alignment.insertions++;
  alignment.numWordsInHypothesis++;
  alignment.ref_words.push_back(INS);
  alignment.hyp_words.push_back(hyp_word);
  // keep track of the attractors
  alignment.ins_words.push_back(hyp_word);
}

void RecordDeletion(wer_alignment &alignment, const string &ref_word) {
  alignment.deletions++;
  alignment.numWordsInReference++;
  alignment.ref_words.push_back(ref_word);
  alignment.hyp_words.push_back(DEL);
  // keep track of the repellant words
  alignment.del_words.push_back(ref_word);
}
}  // namespace

wer_alignment Walker::GetDetailsFromTopCandidates""")]),
('n-walk-enq','same','C04','Walker.cpp',[whole('Walker.cpp','std::shared_ptr<ShortlistEntry> Walker::enqueueIfNeeded','''std::shared_ptr<ShortlistEntry> Walker::enqueueIfNeeded(std::shared_ptr<ShortlistEntry> currentState,
                                                        const MyArc& arc, bool isAnchor) {
  const int target_state = arc.nextstate;

  if (target_state == currentState->currentState) {
    // we don't loop to ourselves, period...
    return nullptr;
  }

  const auto found = logbook.find(target_state);
  if (found != logbook.end() && found->second < currentState->costSoFar + arc.weight) {
    // we have already been there for less
    return nullptr;
  }

  auto enqueued = make_shared<ShortlistEntry>();
  enqueued->currentState = target_state;
  enqueued->linkToHere = currentState;
  enqueued->local_arc = arc;

  // reaching an anchor means having a cost of 0
  enqueued->costToGoThere = isAnchor ? 0 : arc.weight;
  enqueued->costSoFar = currentState->costSoFar + enqueued->costToGoThere;
  enqueued->numWords = currentState->numWords;

  // at an anchor word, we don't increase the word and error counts
  if (!isAnchor) {
    const bool isError = arc.weight > 0;
    enqueued->numWords++;
    enqueued->numErrors = currentState->numErrors + (isError ? 1 : 0);
    if (isError && arc.ilabel == 0) {
      enqueued->numInsert++;
    }
  }

  logbook[target_state] = enqueued->costSoFar;
  return enqueued;
}''')]),
('n-prune','same','C04','PathHeap.cpp',[("""  int pruned = 0;
  while (iter != heap.end()) {""","""  int pruned = 0;
  const int maxErrors = (*last_wer_index)->numErrors + pruningErrorOffset;
  while (iter != heap.end()) {""")]),
('n-trav-iter','same','C08','AlignmentTraversor.cpp',[whole('AlignmentTraversor.cpp','bool AlignmentTraversor::NextTriple','''bool AlignmentTraversor::NextTriple(triple &triple) {
  while (true) {
    if (currentSubclass != nullptr) {
      currentPosInSubclass++;
      const bool isEmptyFallback = currentPosInSubclass == 0 && currentSubclass->tokens.empty() &&
                                   currentSubclass->classLabel.find("FALLBACK") != std::string::npos;
      if (isEmptyFallback) {
        triple.classLabel = currentSubclass->classLabel;
        triple.ref = NOOP;
        triple.hyp = NOOP;
        return true;
      }

      if (currentPosInSubclass < currentSubclass->tokens.size()) {
        const auto &tk = currentSubclass->tokens[currentPosInSubclass];
        triple.classLabel = currentSubclass->classLabel;
        triple.ref = tk.first;
        triple.hyp = tk.second;
        return true;
      }

      // we're done here...
      currentSubclass = nullptr;
      currentPosInSubclass = -1;
    }

    // we're not in a subclass, we're consuming the root alignment content
    currentPosInRoot++;
    if (currentPosInRoot >= root.tokens.size()) {
      return false;
    }

    const auto &tk = root.tokens[currentPosInRoot];
    if (!isEntityLabel(tk.first)) {
      triple.classLabel = TK_GLOBAL_CLASS;
      triple.ref = tk.first;
      triple.hyp = tk.second;
      return true;
    }

    // handle class: find subclass from within the root
    currentPosInSubclass = -1;
    for (auto &a : root.label_alignments) {
      if (a.classLabel == tk.first) {
        currentSubclass = &a;
        break;
      }
    }
  }
}''')]),
('n-ms-comment','same','C08','fstalign.cpp',[("""    if (ref_tk == INS) {
      part.comment = "ins";
    } else if (hyp_tk == DEL) {
      part.comment = "del";
    } else if (hyp_tk != ref_tk) {
      part.comment = "sub(" + part.hyptk + ")";
    }
""","""    part.comment = DescribeEdit(ref_tk, hyp_tk);
"""),("""vector<Stitching> make_stitches(""","""static string DescribeEdit(const string &ref, const string &hyp) {
  if (ref == INS) {
    return "ins";
  }
  if (hyp == DEL) {
    return "del";
  }
  if (ref != hyp) {
    return "sub(" + hyp + ")";
  }
  return "";
}

vector<Stitching> make_stitches(""")]),
('n-ms-fill','same','C08','fstalign.cpp',[("""      auto ctmPart = hyp_ctm_rows[hypRowIndex];
      part.start_ts = ctmPart.start_time_secs;
      part.duration = ctmPart.duration_secs;
      part.end_ts = ctmPart.start_time_secs + ctmPart.duration_secs;
      part.confidence = ctmPart.confidence;

      part.hyp_orig = ctmPart.word;
""","""      const auto &ctmPart = hyp_ctm_rows.at(hypRowIndex);
      FillFromCtm(part, ctmPart);
"""),("""vector<Stitching> make_stitches(""","""static void FillFromCtm(Stitching &part, const RawCtmRecord &row) {
  part.hyp_orig = row.word;
  part.confidence = row.confidence;
  part.start_ts = row.start_time_secs;
  part.duration = row.duration_secs;
  part.end_ts = part.start_ts + part.duration;
}

vector<Stitching> make_stitches(""")]),
('n-al-countrun','same','C19','fstalign.cpp',[("""    if (inSynonymPath) {
      int tmpid;
      sscanf(stitch.classLabel.c_str(), "___%d_SYN_%d-%d___", &tmpid, &classLabelRowsInNlp, &classLabelRowsInStitches);
      // We need the logic below in case there were insertions in the stitches
      while (alignedTokensIndex + classLabelRowsInStitches < numStitches) {
        int p = alignedTokensIndex + classLabelRowsInStitches;
        if (stitch.classLabel == stitches[p].classLabel) {
          classLabelRowsInStitches++;
          continue;
        }

        break;
      }
    } else {
      while (alignedTokensIndex + classLabelRowsInStitches < numStitches) {
        int p = alignedTokensIndex + classLabelRowsInStitches;
        if (stitch.classLabel == stitches[p].classLabel) {
          classLabelRowsInStitches++;
          continue;
        }

        break;
      }

      while""","""    if (inSynonymPath) {
      int tmpid;
      sscanf(stitch.classLabel.c_str(), "___%d_SYN_%d-%d___", &tmpid, &classLabelRowsInNlp, &classLabelRowsInStitches);
    }

    // for synonyms, this is needed in case there were insertions in the stitches
    while (alignedTokensIndex + classLabelRowsInStitches < numStitches &&
           stitches[alignedTokensIndex + classLabelRowsInStitches].classLabel == stitch.classLabel) {
      classLabelRowsInStitches++;
    }

    if (!inSynonymPath) {
      while""")]),
('n-fa-build','same','C23','fstalign.cpp',[("""  fst::StdVectorFst refFst;
  fst::StdVectorFst hypFst;
  if (MapContainsErrorStreaks(mapB, alignerOptions.levenstein_maximum_error_streak)) {
    // Only use map if it is safe for composition, only checking hypothesis map for now
    logger->info("Not using levenshtein pre-computation - error streak longer than {}",
                 alignerOptions.levenstein_maximum_error_streak);
    refFst = refLoader.convertToFst(symbol, {});
    hypFst = hypLoader.convertToFst(symbol, {});
  } else {
    refFst = refLoader.convertToFst(symbol, mapA);
    hypFst = hypLoader.convertToFst(symbol, mapB);
  }
""","""  // Only use map if it is safe for composition, only checking hypothesis map for now
  const bool use_map = !MapContainsErrorStreaks(mapB, alignerOptions.levenstein_maximum_error_streak);
  if (!use_map) {
    logger->info("Not using levenshtein pre-computation - error streak longer than {}",
                 alignerOptions.levenstein_maximum_error_streak);
    mapA.clear();
    mapB.clear();
  }
  fst::StdVectorFst refFst = refLoader.convertToFst(symbol, mapA);
  fst::StdVectorFst hypFst = hypLoader.convertToFst(symbol, mapB);
""")]),
('n-fa-first','same','C23','fstalign.cpp',[("""  if (best_alignments.size() > 0) {
    sort(best_alignments.begin(), best_alignments.end(), sort_alignment);
    return best_alignments[0];
  }

  throw std::runtime_error("no alignment produced");
""","""  if (best_alignments.empty()) {
    throw std::runtime_error("no alignment produced");
  }

  std::sort(best_alignments.begin(), best_alignments.end(),
            [](const wer_alignment &lhs, const wer_alignment &rhs) { return lhs.WER() < rhs.WER(); });
  return best_alignments.front();
""")]),
('n-hw-outputs','same','C23','fstalign.cpp',[("""    // Calculate and record supplementary WER
    RecordSpeakerWer(stitches);
    RecordTagWer(stitches);
    RecordSentenceWer(stitches);

    if (!output_nlp.empty()) {
      ofstream nlp_ostream(output_nlp);
      write_stitches_to_nlp(stitches, nlp_ostream, nlp_ref_loader->mJsonNorm, add_inserts_nlp);
    }
  }
""","""    RecordSupplementaryWer(stitches);

    if (!output_nlp.empty()) {
      ofstream nlp_ostream;
      nlp_ostream.open(output_nlp);
      write_stitches_to_nlp(stitches, nlp_ostream, nlp_ref_loader->mJsonNorm, add_inserts_nlp);
      nlp_ostream.close();
    }
  }
"""),("""void HandleWer(""","""// Calculate and record supplementary WER
static void RecordSupplementaryWer(const vector<Stitching> &stitches) {
  RecordSpeakerWer(stitches);
  RecordTagWer(stitches);
  RecordSentenceWer(stitches);
}

void HandleWer(""")]),
('n-nlp-fst','same','C15','Nlp.cpp',[("""    if (map_sz > wc && map[wc] > 0) {
      transducer.AddArc(prevState, fst::StdArc(token_sym, token_sym, 1.0f, nextState));
    } else {
      transducer.AddArc(prevState, fst::StdArc(token_sym, token_sym, 0.0f, nextState));
    }
    wc++;
""","""    const bool pinned = wc < map_sz && map[wc] > 0;
    const float weight = pinned ? 1.0f : 0.0f;
    transducer.AddArc(prevState, fst::StdArc(token_sym, token_sym, weight, nextState));
    ++wc;
"""),("""    int token_sym = symbol.Find(token);
    if (token_sym == -1) {
      token_sym = symbol.Find(options.symUnk);
    }

    // logger""","""    int token_sym = FindOrUnk(symbol, token, options.symUnk);

    // logger"""),("""          int token_sym = symbol.Find(ltoken);
          if (token_sym == -1) {
            token_sym = symbol.Find(options.symUnk);
          }
""","""          const int token_sym = FindOrUnk(symbol, ltoken, options.symUnk);
"""),("""fst::StdVectorFst NlpFstLoader::convertToFst""","""static int FindOrUnk(const fst::SymbolTable &symbol, const std::string &token, const std::string &unk) {
  const int id = symbol.Find(token);
  return id != -1 ? id : symbol.Find(unk);
}

fst::StdVectorFst NlpFstLoader::convertToFst""")]),
('n-nlp-branch','same','C15','Nlp.cpp',[("""      int classPrevState, classNextState, classExitStartState, classExitEndState = 0;

      if (!markLabels) {
        /* original code */
        classPrevState = prevState;
        classNextState = nextState;
      } else {
        transducer.AddState();
        transducer.AddState();

        // basically, we want to attach the graph from this label
        // at the state after the _0_ label
        // classPrevState  -> where to start the arcs from for each of the alternative paths
        // classNextState  -> where to tie the end of each alternative paths with the eps transition
        classPrevState = nextState;
        classNextState = nextState + 1;

        classExitStartState = nextState + 1;
        classExitEndState = classExitStartState + 1;

        nextState = classExitEndState;

        transducer.AddArc(classExitStartState, fst::StdArc(token_sym, token_sym, 0.0f, classExitEndState));
      }
""","""      // basically, we want to attach the graph from this label
      // at the state after the _0_ label
      const int classPrevState = nextState;
      const int classNextState = transducer.AddState();
      const int classExitEndState = transducer.AddState();
      nextState = classExitEndState;
      transducer.AddArc(classNextState, fst::StdArc(token_sym, token_sym, 0.0f, classExitEndState));
"""),("""      if (!markLabels) {
        prevState = classNextState;
        nextState++;
      } else {
        prevState = classExitEndState;
        nextState++;
      }
""","""      prevState = classExitEndState;
      nextState++;
""")]),
('n-nlp-tags','same','C10','Nlp.cpp',[whole('Nlp.cpp','std::vector<WerTagEntry> NlpReader::GetWerTags','''std::vector<WerTagEntry> NlpReader::GetWerTags(std::string &wer_tags_str) {
  std::vector<WerTagEntry> wer_tags;
  if (wer_tags_str == "[]") {
    return wer_tags;
  }
  // wer_tags_str looks like: ['89', '90', '100']
  int start = 2;
  for (auto end = wer_tags_str.find("'", start); end != std::string::npos; end = wer_tags_str.find("'", start)) {
    WerTagEntry entry;
    entry.tag_id = wer_tags_str.substr(start, end - start);
    wer_tags.emplace_back(entry);

    const auto next_quote = wer_tags_str.find("'", end + 1);
    if (next_quote == std::string::npos) {
      break;
    }
    start = next_quote + 1;
  }
  return wer_tags;
}''')]),
('n-ctm-count','same','C10','Ctm.cpp',[("""  int sz = 1;
  char lastChar = 'x';

  for (auto &c : first_line) {
    if (c == ' ' || c == '\\t') {
      if (lastChar != ' ' && lastChar != '\\t') {
        sz++;
      }
    }

    lastChar = c;
  }
""","""  auto is_separator = [](char c) { return c == ' ' || c == '\\t'; };
  int sz = 1;
  bool in_separator = false;
  for (char c : first_line) {
    const bool separator = is_separator(c);
    if (separator && !in_separator) {
      ++sz;
    }
    in_separator = separator;
  }
"""),("""  bool hasConf = sz > 5 ? true : false;

  if (hasConf) {
    return read_from_disk_with_conf(filename);
  } else {
    return read_from_disk_no_conf(filename);
  }""","""  return sz > 5 ? read_from_disk_with_conf(filename) : read_from_disk_no_conf(filename);""")]),
('n-ad-arcs','same','C02','AdaptedComposition.cpp',[("""      // we have a matching label
      if (arcA.olabel == arcB.ilabel) {
        num_match++;
        arcs_matched = true;

        StateId c = GetOrCreateComposedState(arcA.nextstate, arcB.nextstate);
""","""      // we have a matching label
      arcs_matched = arcA.olabel == arcB.ilabel;
      if (arcs_matched) {
        ++num_match;

        const StateId c = GetOrCreateComposedState(arcA.nextstate, arcB.nextstate);
"""),("""  if (fstA_.NumArcs(refA) == 0) {
    // we reached the end of the A graph, but what about B?""","""  if (num_ref_labels == 0) {
    // we reached the end of the A graph, but what about B?""")]),
('n-ad-ins','same','C02','AdaptedComposition.cpp',[("""      if (weightB <= 0) {
        // B can be inserted...""","""      const bool hyp_pinned = weightB > 0;
      if (!hyp_pinned) {
        // B can be inserted..."""),("""      if (weightA <= 0 && weightB <= 0) {
        // allow sub""","""      if (!hyp_pinned && !(weightA > 0)) {
        // allow sub"""),("""      float weightB = arcB.weight.Value();
      if (weightB > 0) {
        continue;
      }
""","""      if (arcB.weight.Value() > 0) {
        continue;
      }
""")]),
('n-ut-syn','same','C12','utilities.cpp',[whole('utilities.cpp','bool IsNoisecodeToken','''bool IsNoisecodeToken(const string &token) {
  if (token.empty() || token.front() != '<') {
    return false;
  }
  return token.find('>') == token.size() - 1;
}''')]),
('n-ut-bigrams','same','C20','utilities.cpp',[("""  for (auto it = flattened_tokens.begin(); it != std::prev(flattened_tokens.end()); ++it) {
    bi_words = {it->first, std::next(it)->first};
    bigram_ref = string_join(bi_words, " ");
""","""  for (size_t i = 0; i + 1 < flattened_tokens.size(); ++i) {
    const auto *it = &flattened_tokens[i];
    bi_words = {it->first, flattened_tokens[i + 1].first};
    bigram_ref = string_join(bi_words, " ");
"""),("bi_words = {it->second, std::next(it)->second};","bi_words = {it->second, flattened_tokens[i + 1].second};")]),
('n-ut-labelid','same','C12','utilities.cpp',[whole('utilities.cpp','string getLabelIdFromToken','''string getLabelIdFromToken(const string &token) {
  if (!isEntityLabel(token)) {
    return "";
  }
  // Trim the ___ from the start and end of the label string
  const string trimmed = token.substr(3, token.size() - 6);
  // Isolate the ID at the start of the label, separated by _
  const auto separator = trimmed.find('_');
  return (separator != string::npos && separator > 0) ? trimmed.substr(0, separator) : trimmed;
}''')]),
('n-dist-fn','same','C05','fast-d.cpp',[("""bool MapContainsErrorStreaks(std::vector<int> map, int streak_cutoff) {
  int seq_cnt = 0;
  int bad_match_seq_cnt = 0;
  for (int x = 0; x < map.size(); x++) {
    if (map[x] <= 0) {
      bad_match_seq_cnt++;
    } else if (bad_match_seq_cnt > streak_cutoff) {
      return true;
    } else {
      bad_match_seq_cnt = 0;
    }
  }
  return false;
}""","""bool MapContainsErrorStreaks(std::vector<int> map, int streak_cutoff) {
  int streak = 0;
  for (int value : map) {
    const bool matched = value > 0;
    if (!matched) {
      ++streak;
      continue;
    }
    if (streak > streak_cutoff) {
      return true;
    }
    streak = 0;
  }
  return false;
}""")]),
('n-dist-trace','same','C05','fast-d.cpp',[("""    for (int x = 0; x <= lengthA; x++) {
      distance[x] = distancePrev[x];
    }
""","""    std::copy(distancePrev, distancePrev + lengthA + 1, distance);
"""),("""      auto v = all_distances[seqB_track - 1];
      for (int j = 0; j <= lengthA; ++j) {
        distancePrev[j] = v[j];
      }""","""      const auto &row = all_distances[seqB_track - 1];
      std::copy(row.begin(), row.end(), distancePrev);""")]),
('n-dist-trace2','same','C05','fast-d.cpp',[("""    if (min_path_score == nw) {
      // the upper-left diagonal is the best path
      is_sub = true;
      if (token_a == token_b) {
        // we have a caracter match
        mapA[current_pos - 1] = 1;
        mapB[seqB_track - 1] = 1;
        is_match = true;
        is_sub = false;
      }""","""    if (min_path_score == nw) {
      // the upper-left diagonal is the best path
      is_match = token_a == token_b;
      is_sub = !is_match;
      if (is_match) {
        // we have a caracter match
        mapB[seqB_track - 1] = 1;
        mapA[current_pos - 1] = 1;
      }""")]),
('n-std-edit','same','C03','StandardComposition.cpp',[("""  for (SymbolTableIterator siter(*symbols_); !siter.Done(); siter.Next()) {
    int64 sid = siter.Value();
    if (sid != 0 && sid != ins_label_id_ && sid != del_label_id_ && sid != sub_label_id_) {
      auto sym_tk = symbols_->Find(sid);
      bool isClassLabel = isEntityLabel(sym_tk);

      if (isClassLabel) {""","""  const std::set<int64> reserved = {0, ins_label_id_, del_label_id_, sub_label_id_};
  for (SymbolTableIterator siter(*symbols_); !siter.Done(); siter.Next()) {
    const int64 sid = siter.Value();
    if (reserved.count(sid) == 0) {
      if (isEntityLabel(symbols_->Find(sid))) {""")]),
('n-reg','same','C24','utilities.h',[whole('utilities.h','  void RegisterSymbols','''  static int FindOrAdd(fst::SymbolTable &symbol, const string &name) {
    const int id = symbol.Find(name);
    return id == -1 ? symbol.AddSymbol(name) : id;
  }

  void RegisterSymbols(fst::SymbolTable &symbol) {
    eps_idx = FindOrAdd(symbol, symEps);
    oov_idx = FindOrAdd(symbol, symOov);
    ins_idx = FindOrAdd(symbol, symIns);
    del_idx = FindOrAdd(symbol, symDel);
    sub_idx = FindOrAdd(symbol, symSub);
    inaud_idx = FindOrAdd(symbol, symInaud);
    sil_idx = FindOrAdd(symbol, symSil);
    unk_idx = FindOrAdd(symbol, symUnk);
  }''')]),
('n-reverse','same','C01 C06','utilities.h',[("""    std::reverse(ref_words.begin(), ref_words.end());
    std::reverse(hyp_words.begin(), hyp_words.end());
    std::reverse(ins_words.begin(), ins_words.end());
    std::reverse(del_words.begin(), del_words.end());
""","""    for (auto *words : {&ref_words, &hyp_words, &ins_words, &del_words}) {
      std::reverse(words->begin(), words->end());
    }
""")]),
('n-wer','same','C06 C23','utilities.h',[("""    if (numWordsInReference > 0) {
      return (float)(insertions + deletions + substitutions) / (float)numWordsInReference;
    }

    if (numWordsInHypothesis > 0) {
      return numeric_limits<float>::infinity();
    }

    return 0;""","""    if (numWordsInReference <= 0) {
      return numWordsInHypothesis > 0 ? numeric_limits<float>::infinity() : 0.0f;
    }
    const int errors = substitutions + insertions + deletions;
    return static_cast<float>(errors) / numWordsInReference;""")]),
]
