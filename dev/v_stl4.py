S='SynonymEngine.cpp'; K='Walker.cpp'; F='fstalign.cpp'; A='AlignmentTraversor.cpp'
SY='C13 C16 C21 C25'; WK='C01 C04 C16 C25'; ST='C19 C16 C25'; OUT='C18 C16 C17 C25'; HD='C23 C16 C17 C21 C25'
CP="""      while (alignedTokensIndex + classLabelRowsInStitches < numStitches) {
        int p = alignedTokensIndex + classLabelRowsInStitches;
        if (stitch.classLabel == stitches[p].classLabel) {
          classLabelRowsInStitches++;
          continue;
        }

        break;
      }
"""
V=[
('s-kv','same',SY,S,[("  for (auto entry : synonyms) {\n    auto tk = entry.first[0];","  for (const auto &[key, values] : synonyms) {\n    const string &tk = key[0];"),("firstWordInRules[id].push_back(entry.first);","firstWordInRules[id].push_back(key);")]),
('s-brk','same',SY,S,[("""    int id = symbol.Find(tk);
    if (id != kNoSymbol) {
      if (firstWordInRules.find(id) == firstWordInRules.end()) {
        firstWordInRules[id] = vector<SynKey>();
      }

      firstWordInRules[id].push_back(entry.first);
    }
""","""    const int id = symbol.Find(tk);
    if (id == kNoSymbol) continue;
    firstWordInRules[id].emplace_back(entry.first);
""")]),
('s-lam','same',SY,S,[("""            nextState = fst.AddState();
            StdArc newArc(wid, wid, 0.0f, nextState);
            pair<int, StdArc> local_pair;
            local_pair = make_pair(currState, newArc);
            arcsToAdd.push_back(local_pair);
            currState = nextState;
""","""            currState = extend(currState, wid);
"""),("""          nextState = fst.AddState();
          StdArc newArc(syn_classlabel_wid, syn_classlabel_wid, 0.0f, nextState);
          pair<int, StdArc> local_pair;
          local_pair = make_pair(currState, newArc);
          arcsToAdd.push_back(local_pair);
          currState = nextState;
""","""          currState = extend(currState, syn_classlabel_wid);
"""),("          int nextState = 0;\n",""),("  int synonym_replacement_id = 100000;\n","""  int synonym_replacement_id = 100000;
  auto extend = [&fst, &arcsToAdd](int from, int label) {
    const int to = fst.AddState();
    arcsToAdd.emplace_back(from, StdArc(label, label, 0.0f, to));
    return to;
  };
""")]),
('s-emplace','same',SY,S,[("""            StdArc newArc(syn_classlabel_wid, syn_classlabel_wid, 0.0f, kk);
            pair<int, StdArc> local_pair;
            local_pair = make_pair(currState, newArc);
            arcsToAdd.push_back(local_pair);
""","""            arcsToAdd.emplace_back(currState, StdArc(syn_classlabel_wid, syn_classlabel_wid, 0.0f, kk));
""")]),
('s-sb','same',SY,S,[("""  for (auto &p : arcsToAdd) {
    logger_->debug("adding arc between {} and {} with label_id {}", p.first, p.second.nextstate, p.second.ilabel);
    fst.AddArc(p.first, p.second);
""","""  for (const auto &[from, arc] : arcsToAdd) {
    fst.AddArc(from, arc);
""")]),
('s-parse-emplace','same',SY,S,[("""    if (synonyms.find(key) == synonyms.end()) {
      // new entry
      auto values = GetValuesFromStrings(rhs);
      synonyms[key] = values;
    } else {""","""    if (synonyms.count(key) == 0) {
      synonyms.emplace(std::move(key), GetValuesFromStrings(rhs));
    } else {""")]),
('s-parse-inv','same',SY,S,[("""    if (synonyms.find(key) == synonyms.end()) {
      // new entry
      auto values = GetValuesFromStrings(rhs);
      synonyms[key] = values;
    } else {
      logger_->warn(
          "WARNING: the entry [{}] was found multiple time, skipping "
          "redefinition",
          lhs);
    }
""","""    if (synonyms.find(key) != synonyms.end()) {
      logger_->warn("WARNING: the entry [{}] was found multiple time, skipping redefinition", lhs);
      continue;
    }
    synonyms.insert({key, GetValuesFromStrings(rhs)});
""")]),
('s-seek-insert','same',SY,S,[("""      copy(endStates.begin(), endStates.end(), back_inserter(lastStates));
""","""      lastStates.insert(lastStates.end(), endStates.begin(), endStates.end());
""")]),
('s-seek-cond','same',SY,S,[("""    if (arc.nextstate == stateId) {
      // if we're pointing to ourselves, let's ignore that
      continue;
    }

    int label_id = arc.ilabel;
    if (label_id == currKeyPartLabelId) {
      auto""","""    if (arc.nextstate != stateId && arc.ilabel == currKeyPartLabelId) {
      auto"""),("if (lhsPos >= lhs.size()) {\n    // we reached the end of the LHS stack, this node is our\n    // destination\n    lastStates.push_back(startingStateId);\n    return lastStates;\n","if (static_cast<size_t>(lhsPos) >= lhs.size()) {\n    return {startingStateId};\n")]),
('s-gen-emplace','same',SY,S,[("""      auto key = GetKeyFromString(sym);
      auto values = GetValuesFromStrings(new_word);
      if (synonyms.find(key) == synonyms.end()) {
        // Only add the cutoff synonym if no synonym is already defined
        synonyms[key] = values;
      }
""","""      // Only added if no synonym is already defined
      synonyms.emplace(GetKeyFromString(sym), GetValuesFromStrings(new_word));
""")]),
('s-gen-helper','same',SY,S,[("""      if (synonyms.find(hyphenated) == synonyms.end()) {
        // Add hyphenated --> unhyphenated synonym
        synonyms[hyphenated] = {new_words};
      }
      if (synonyms.find(new_words) == synonyms.end()) {
        // Add unhyphenated --> hyphenated synonym
        synonyms[new_words] = {hyphenated};
      }
""","""      synonyms.insert({hyphenated, SynVals{new_words}});
      synonyms.insert({new_words, SynVals{hyphenated}});
""")]),
('s-gen-npos','same',SY,S,[("""    int hyphen_idx = sym.find('-');
    if (hyphen_idx < 0) {
      continue;
    }
""","""    const auto hyphen_idx = sym.find('-');
    if (hyphen_idx == string::npos) {
      continue;
    }
""")]),
('s-gen-split','same',SY,S,[("""    if (!opts_.disable_cutoffs && hyphen_idx == sym.length() - 1) {""","""    const bool is_cutoff = hyphen_idx == sym.length() - 1;
    if (is_cutoff && !opts_.disable_cutoffs) {"""),("} else if (!opts_.disable_hyphen_ignore && hyphen_idx != sym.length() - 1) {","} else if (!is_cutoff && !opts_.disable_hyphen_ignore) {")]),
('k-range','same',WK,K,[("""    for (vector<StdArc>::iterator iter = arcs_leaving_state.begin(); iter != arcs_leaving_state.end(); ++iter) {
      const fst::StdArc arc = *iter;
""","""    for (const auto &arc : arcs_leaving_state) {
""")]),
('k-swap','same',WK,K,[("""    auto heapTmp = heapA;
    heapA = heapB;
    heapB = heapTmp;
""","""    std::swap(heapA, heapB);
""")]),
('k-aggr','same',WK,K,[("""      MyArc local_arc;
      local_arc.ilabel = arc.ilabel;
      local_arc.olabel = arc.olabel;
      local_arc.nextstate = arc.nextstate;
      local_arc.weight = arc.weight.Value();
""","""      MyArc local_arc;
      std::tie(local_arc.ilabel, local_arc.olabel, local_arc.nextstate) = std::make_tuple(arc.ilabel, arc.olabel, arc.nextstate);
      local_arc.weight = arc.weight.Value();
""")]),
('k-enq-early','same',WK,K,[("""  bool enqueue = false;
  auto found = logbook.find(target_state);
  if (found == logbook.end()) {
    // we couldn't find a shortlist entry in the logbook, we'll have to create
    // one
    enqueue = true;
  } else {
    float oldCost = found->second;

    // should that just be > instead of >= ?
    if (oldCost >= currentState->costSoFar + arc.weight) {
      enqueue = true;
      //   logbook.erase(found);
    }
  }

  if (!enqueue) {
    return enqueued;
  }
""","""  const auto found = logbook.find(target_state);
  if (found != logbook.end() && found->second < currentState->costSoFar + arc.weight) {
    return nullptr;
  }
""")]),
('k-enq-makeshared','same',WK,K,[("""  logbook[enqueued->currentState] = enqueued->costSoFar;
""","""  logbook.insert_or_assign(enqueued->currentState, enqueued->costSoFar);
""")]),
('k-det-lam','same',WK,K,[("""      if (class_label_wer_info != nullptr) {
        class_label_wer_info->numWordsInHypothesis++;
        class_label_wer_info->numWordsInReference++;

        class_label_wer_info->ref_words.push_back(ilabel);
        class_label_wer_info->hyp_words.push_back(olabel);

        class_label_wer_info->tokens.push_back(pair);
      } else {
        global_wer_alignment.tokens.push_back(pair);
      }
    }
""","""      if (class_label_wer_info != nullptr) {
        class_label_wer_info->numWordsInHypothesis++;
        class_label_wer_info->numWordsInReference++;

        class_label_wer_info->ref_words.push_back(ilabel);
        class_label_wer_info->hyp_words.push_back(olabel);
      }
      auto &target = class_label_wer_info != nullptr ? *class_label_wer_info : global_wer_alignment;
      target.tokens.emplace_back(ilabel, olabel);
    }
""")]),
('k-det-special','same',WK,K,[("""special_symbols.find(local_arc.ilabel) == special_symbols.end() &&
               special_symbols.find(local_arc.olabel) == special_symbols.end()""","""special_symbols.count(local_arc.ilabel) == 0""")]),
('k-det-for','same',WK,K,[("  while (now != nullptr) {\n    const MyArc","  for (; now != nullptr; now = now->linkToHere.get()) {\n    const MyArc"),("""      now = now->linkToHere.get();
      continue;""","""      continue;"""),("""    now = now->linkToHere.get();
  }

  logger""","""  }

  logger""")]),
('k-det-ops','same',WK,K,[("""        std::pair<string, string> pair;
        pair = std::make_pair(ilabel, olabel);
        global_wer_alignment.sub_words.push_back(pair);
""","""        const auto pair = std::make_pair(ilabel, olabel);
        global_wer_alignment.sub_words.push_back(pair);
""")]),
('f-cnt-lam','same',ST,F,[(CP,"""      const auto sameLabel = [&](int p) { return stitches[p].classLabel == stitch.classLabel; };
      while (alignedTokensIndex + classLabelRowsInStitches < numStitches &&
             sameLabel(alignedTokensIndex + classLabelRowsInStitches)) {
        ++classLabelRowsInStitches;
      }
""")]),
('f-cnt-for','same',ST,F,[(CP,"""      for (int p = alignedTokensIndex + classLabelRowsInStitches;
           p < numStitches && stitches[p].classLabel == stitch.classLabel; ++p) {
        classLabelRowsInStitches++;
      }
""")]),
('f-cnt-findif','same',ST,F,[(CP,"""      const auto from = stitches.begin() + alignedTokensIndex + classLabelRowsInStitches;
      if (alignedTokensIndex + classLabelRowsInStitches < numStitches) {
        const auto to = std::find_if(from, stitches.end(), [&](const Stitching &s) { return s.classLabel != stitch.classLabel; });
        classLabelRowsInStitches += to - from;
      }
"""),('#include <stdio.h>','#include <stdio.h>\n#include <algorithm>')]),
('f-direct','same',ST,F,[("""      stitch.nlpRow = nlpPart;
      stitch.comment += ",direct";
      alignedTokensIndex++;
      nlpRowIndex++;

      for (int i = 1; i < classLabelRowsInNlp; i++) {
        stitches[alignedTokensIndex].nlpRow = nlpRows[nlpRowIndex];
        stitches[alignedTokensIndex].comment += ",direct";
        alignedTokensIndex++;
        nlpRowIndex++;
      }
      continue;
""","""      for (int i = 0; i < classLabelRowsInNlp; i++, alignedTokensIndex++, nlpRowIndex++) {
        stitches[alignedTokensIndex].nlpRow = nlpRows[nlpRowIndex];
        stitches[alignedTokensIndex].comment += ",direct";
      }
      continue;
""")]),
('f-push','same',ST,F,[("""      if (classLabelRowsInStitches > 2) {
        for (int i = 1; i < classLabelRowsInStitches - 1; i++) {
          stitches[alignedTokensIndex].nlpRow = newRecord;
          stitches[alignedTokensIndex].comment += ",push_last";
          alignedTokensIndex++;
        }
      }
""","""      for (int i = 1; i < classLabelRowsInStitches - 1; i++) {
        auto &inner = stitches[alignedTokensIndex++];
        inner.nlpRow = newRecord;
        inner.comment += ",push_last";
      }
""")]),
('f-push2','same',ST,F,[("""      RawNlpRecord newRecord;
      newRecord.best_label = nlpPart.best_label;
      newRecord.best_label_id = nlpPart.best_label_id;
      newRecord.labels = nlpPart.labels;
      newRecord.wer_tags = nlpPart.wer_tags;
      newRecord.speakerId = nlpPart.speakerId;
      newRecord.token = nlpPart.token;
      newRecord.ts = nlpPart.ts;
      newRecord.endTs = nlpPart.endTs;
      newRecord.punctuation = "";
      newRecord.prepunctuation = "";
      newRecord.casing = "LC";
""","""      RawNlpRecord newRecord = nlpPart;
      newRecord.confidence = RawNlpRecord().confidence;
      newRecord.punctuation.clear();
      newRecord.prepunctuation.clear();
      newRecord.casing = "LC";
""")]),
('f-split','same',ST,F,[("""      stitches[alignedTokensIndex].nlpRow = RawNlpRecord();
      stitches[alignedTokensIndex].nlpRow.speakerId = nlpPart.speakerId;
      stitches[alignedTokensIndex].nlpRow.punctuation = "";
      stitches[alignedTokensIndex].nlpRow.casing = "LC";
      stitches[alignedTokensIndex].nlpRow.labels = nlpPart.labels;
      stitches[alignedTokensIndex].nlpRow.wer_tags = nlpPart.wer_tags;
      stitches[alignedTokensIndex].comment += ",split_worst";
      alignedTokensIndex++;
""","""      RawNlpRecord filler;
      filler.speakerId = nlpPart.speakerId;
      filler.casing = "LC";
      filler.labels = nlpPart.labels;
      filler.wer_tags = nlpPart.wer_tags;
      Stitching &inner = stitches.at(alignedTokensIndex++);
      inner.nlpRow = std::move(filler);
      inner.comment.append(",split_worst");
""")]),
('f-lbl','same',ST,F,[("""    } else if (stitch.classLabel != TK_GLOBAL_CLASS) {
      inClassLabel = true;
      if (nlp_classLabel != stitch.classLabel) {
        labelsMatch = false;
      }
    } else if (nlp_classLabel != "") {
      inClassLabel = true;
      labelsMatch = false;
    }
""","""    } else {
      inClassLabel = stitch.classLabel != TK_GLOBAL_CLASS || !nlp_classLabel.empty();
      labelsMatch = !inClassLabel || nlp_classLabel == stitch.classLabel;
    }
""")]),
('f-wn-join','same',OUT,F,[("""    for (auto it = stitch.nlpRow.wer_tags.begin(); it != stitch.nlpRow.wer_tags.end(); ++it) {
      output_nlp_file << "'" << it->tag_id << "'";
      if (std::next(it) != stitch.nlpRow.wer_tags.end()) {
        output_nlp_file << ", ";
      }
    }
""","""    bool first = true;
    for (const auto &tag : stitch.nlpRow.wer_tags) {
      if (!first) output_nlp_file << ", ";
      output_nlp_file << "'" << tag.tag_id << "'";
      first = false;
    }
""")]),
('f-wn-sep','same',OUT,F,[("""    for (auto it = stitch.nlpRow.wer_tags.begin(); it != stitch.nlpRow.wer_tags.end(); ++it) {
      output_nlp_file << "'" << it->tag_id << "'";
      if (std::next(it) != stitch.nlpRow.wer_tags.end()) {
        output_nlp_file << ", ";
      }
    }
""","""    const char *sep = "";
    for (const auto &tag : stitch.nlpRow.wer_tags) {
      output_nlp_file << sep << "'" << tag.tag_id << "'";
      sep = ", ";
    }
""")]),
('f-wn-row','same',OUT,F,[("""    output_nlp_file << stitch.nlpRow.ts << "|" << stitch.nlpRow.endTs << "|";
    output_nlp_file << stitch.comment << "|" << stitch.nlpRow.confidence << endl;
""","""    const auto &row = stitch.nlpRow;
    output_nlp_file << row.ts << '|' << row.endTs << '|' << stitch.comment << '|' << row.confidence << '\\n';
""")]),
('f-wn-ins','same',OUT,F,[("""    if (stitch.comment.find("ins") == 0 && !add_inserts) {""","""    const bool is_insertion = stitch.comment.compare(0, 3, "ins") == 0;
    if (is_insertion && !add_inserts) {"""),("    } else if (stitch.comment.find(\"ins\") == 0) {\n      assert","    } else if (is_insertion) {\n      assert")]),
('f-hw-tok','same',HD,F,[("""    for (int i = 0; i < best_loader->TokensSize(); i++) {
      string token = best_loader->getToken(i);
      tokens.push_back(token);
    }
""","""    const int token_count = best_loader->TokensSize();
    for (int i = 0; i < token_count; ++i) {
      tokens.emplace_back(best_loader->getToken(i));
    }
""")]),
('f-hw-if','same',HD,F,[("""  CtmFstLoader *ctm_hyp_loader = dynamic_cast<CtmFstLoader *>(&hypLoader);
  NlpFstLoader *nlp_hyp_loader = dynamic_cast<NlpFstLoader *>(&hypLoader);
  OneBestFstLoader *best_loader = dynamic_cast<OneBestFstLoader *>(&hypLoader);
  if (ctm_hyp_loader) {""","""  if (auto *ctm_hyp_loader = dynamic_cast<CtmFstLoader *>(&hypLoader)) {"""),("} else if (nlp_hyp_loader) {","} else if (auto *nlp_hyp_loader = dynamic_cast<NlpFstLoader *>(&hypLoader)) {"),("} else if (best_loader) {","} else if (auto *best_loader = dynamic_cast<OneBestFstLoader *>(&hypLoader)) {")]),
('f-hw-fn','same',HD,F,[("""  vector<Stitching> stitches;
  CtmFstLoader *ctm_hyp_loader""","""  auto stitches = StitchesFor(topAlignment, hypLoader, use_case);
"""+"""#if 0
  CtmFstLoader *ctm_hyp_loader"""),("""    stitches = make_stitches(topAlignment, {}, {}, {}, use_case);
  }
""","""    stitches = make_stitches(topAlignment, {}, {}, {}, use_case);
  }
#endif
"""),("void HandleWer(","""static vector<Stitching> StitchesFor(wer_alignment &topAlignment, FstLoader &hypLoader, bool use_case) {
  if (const auto *ctm = dynamic_cast<CtmFstLoader *>(&hypLoader)) {
    return make_stitches(topAlignment, ctm->mCtmRows, {}, {}, use_case);
  }
  if (const auto *nlp = dynamic_cast<NlpFstLoader *>(&hypLoader)) {
    return make_stitches(topAlignment, {}, nlp->mNlpRows, {}, use_case);
  }
  vector<string> tokens;
  if (auto *text = dynamic_cast<OneBestFstLoader *>(&hypLoader)) {
    for (int i = 0; i < text->TokensSize(); i++) tokens.push_back(text->getToken(i));
  }
  return make_stitches(topAlignment, {}, {}, tokens, use_case);
}

void HandleWer(""")]),
]
