F='fstalign.cpp'
CTM="""    if (!hyp_ctm_rows.empty()) {
      auto ctmPart = hyp_ctm_rows[hypRowIndex];
"""
RUN="""      while (alignedTokensIndex + classLabelRowsInStitches < numStitches) {
        int p = alignedTokensIndex + classLabelRowsInStitches;
        if (stitch.classLabel == stitches[p].classLabel) {
          classLabelRowsInStitches++;
          continue;
        }

        break;
      }

      while (nlpRowIndex + classLabelRowsInNlp < nlpMaxRow) {
        int p = nlpRowIndex + classLabelRowsInNlp;
        if (nlp_classLabel == GetClassLabel(nlpRows[p].best_label)) {
          classLabelRowsInNlp++;
          continue;
        }

        break;
      }
"""
RUN1=RUN.split('\n\n      while (nlpRow')[0]+'\n'
DIRECT="""      stitch.nlpRow = nlpPart;
      stitch.comment += ",direct";
      alignedTokensIndex++;
      nlpRowIndex++;

      for (int i = 1; i < classLabelRowsInNlp; i++) {
        stitches[alignedTokensIndex].nlpRow = nlpRows[nlpRowIndex];
        stitches[alignedTokensIndex].comment += ",direct";
        alignedTokensIndex++;
        nlpRowIndex++;
      }
      continue;
"""
ONE="""    if (classLabelRowsInNlp == classLabelRowsInStitches && classLabelRowsInStitches == 1) {
      stitch.nlpRow = nlpPart;
      alignedTokensIndex++;
      nlpRowIndex++;
      continue;
    }
"""
NEWREC="""      RawNlpRecord newRecord;
      newRecord.best_label = nlpPart.best_label;
      newRecord.best_label_id = nlpPart.best_label_id;
      newRecord.labels = nlpPart.labels;
      newRecord.wer_tags = nlpPart.wer_tags;
      newRecord.speakerId = nlpPart.speakerId;
      newRecord.token = nlpPart.token;
      newRecord.ts = nlpPart.ts;
      newRecord.endTs = nlpPart.endTs;
      newRecord.punctuation = "";
"""
TAGS="""    for (auto it = stitch.nlpRow.wer_tags.begin(); it != stitch.nlpRow.wer_tags.end(); ++it) {
      output_nlp_file << "'" << it->tag_id << "'";
      if (std::next(it) != stitch.nlpRow.wer_tags.end()) {
        output_nlp_file << ", ";
      }
    }
"""
NLPTS="""      if (!hypNlpPart.ts.empty() && !hypNlpPart.endTs.empty()) {
        float ts = stof(hypNlpPart.ts);
        float endTs = stof(hypNlpPart.endTs);

        part.start_ts = ts;
        part.end_ts = endTs;
        part.duration = endTs - ts;
      } else if (!hypNlpPart.ts.empty()) {
        float ts = stof(hypNlpPart.ts);

        part.start_ts = ts;
        part.end_ts = ts;
        part.duration = 0.0;
      } else if (!hypNlpPart.endTs.empty()) {
        float endTs = stof(hypNlpPart.endTs);

        part.start_ts = endTs;
        part.end_ts = endTs;
        part.duration = 0.0;
      }
"""
RELAX="""      for (int x = 1; x < mapA.size() - 1; x++) {
        if (mapA[x - 1] < 0 && mapA[x + 1] < 0) {
          dist_prime++;
          mapA[x] = -1;
        }
      }
"""
LOADERS="""  if (ctm_hyp_loader) {
    stitches = make_stitches(topAlignment, ctm_hyp_loader->mCtmRows, {}, {}, use_case);
  } else if (nlp_hyp_loader) {
    stitches = make_stitches(topAlignment, {}, nlp_hyp_loader->mNlpRows, {}, use_case);
  } else if (best_loader) {
    vector<string> tokens;
    tokens.reserve(best_loader->TokensSize());
    for (int i = 0; i < best_loader->TokensSize(); i++) {
      string token = best_loader->getToken(i);
      tokens.push_back(token);
    }
    stitches = make_stitches(topAlignment, {}, {}, tokens, use_case);
  } else {
    stitches = make_stitches(topAlignment, {}, {}, {}, use_case);
  }
"""
V=[
# make_stitches
('ms-elseif-comment','same','C08',F,[("""    if (ref_tk == INS) {
      part.comment = "ins";
    } else if (hyp_tk == DEL) {
      part.comment = "del";
    } else if (hyp_tk != ref_tk) {
      part.comment = "sub(" + part.hyptk + ")";
    }
""","""    part.comment = DescribeEdit(ref_tk, hyp_tk);
"""),("vector<Stitching> make_stitches(","""static string DescribeEdit(const string &ref, const string &hyp) {
  if (ref == INS) return "ins";
  if (hyp == DEL) return "del";
  if (hyp == ref) return "";
  return "sub(" + hyp + ")";
}

vector<Stitching> make_stitches(""")]),
('ms-pushback','same','C08',F,[("""    stitches.emplace_back();
    Stitching &part = stitches.back();
""","""    stitches.push_back(Stitching());
    auto &part = stitches[stitches.size() - 1];
""")]),
('ms-constref-rows','same','C08',F,[("auto ctmPart = hyp_ctm_rows[hypRowIndex];","const auto &ctmPart = hyp_ctm_rows.at(hypRowIndex);"),("auto hypNlpPart = hyp_nlp_rows[hypRowIndex];","const RawNlpRecord &hypNlpPart = hyp_nlp_rows[hypRowIndex];")]),
('ms-nlpts-merge','same','C08',F,[(NLPTS,"""      const bool has_start = !hypNlpPart.ts.empty();
      const bool has_end = !hypNlpPart.endTs.empty();
      if (has_start || has_end) {
        float ts = has_start ? stof(hypNlpPart.ts) : stof(hypNlpPart.endTs);
        float endTs = has_end ? stof(hypNlpPart.endTs) : ts;
        part.start_ts = ts;
        part.end_ts = endTs;
        part.duration = (has_start && has_end) ? endTs - ts : 0.0f;
      }
""")]),
('ms-nlpts-helper','same','C08',F,[(NLPTS,"""      SetTimes(part, hypNlpPart);
"""),("vector<Stitching> make_stitches(","""static void SetTimes(Stitching &part, const RawNlpRecord &row) {
  if (row.ts.empty() && row.endTs.empty()) {
    return;
  }
  if (row.ts.empty()) {
    part.start_ts = part.end_ts = stof(row.endTs);
    part.duration = 0.0;
    return;
  }
  part.start_ts = stof(row.ts);
  if (row.endTs.empty()) {
    part.end_ts = part.start_ts;
    part.duration = 0.0;
  } else {
    part.end_ts = stof(row.endTs);
    part.duration = part.end_ts - part.start_ts;
  }
}

vector<Stitching> make_stitches(""")]),
('ms-skip-merged','same','C08',F,[("""    if (hyp_tk == DEL) {
      // this is a deletion, the CTM info won't be available
      part.comment = "del";
      continue;
    }

    if (ref_tk == NOOP) {
      // this is a noop, the alignment favors deletion
      continue;
    }
""","""    const bool deleted = hyp_tk == DEL;
    if (deleted) part.comment = "del";
    if (deleted || ref_tk == NOOP) continue;
""")]),
('ms-noaligncount','same','C08',F,[("    if (tk_classLabel == TK_GLOBAL_CLASS || tk_classLabel != prev_tk_classLabel) {\n      alignedTokensIndex++;\n    }\n","    alignedTokensIndex += (tk_classLabel == TK_GLOBAL_CLASS || tk_classLabel != prev_tk_classLabel) ? 1 : 0;\n")]),
('ms-hyporig-first','same','C08',F,[("      part.start_ts = ctmPart.start_time_secs;\n","      part.hyp_orig = ctmPart.word;\n      part.start_ts = ctmPart.start_time_secs;\n"),("      part.hyp_orig = ctmPart.word;\n      // sanity check","      // sanity check")]),
('ms-endts-start','same','C08',F,[("part.end_ts = ctmPart.start_time_secs + ctmPart.duration_secs;","part.end_ts = part.start_ts + part.duration;")]),
('ms-incearly','bug','C08',F,[("    if (hyp_tk == DEL) {\n      // this is a del","    if (ref_tk == NOOP) hypRowIndex++;\n    if (hyp_tk == DEL) {\n      // this is a del")]),
('ms-noop-bug','bug','C08',F,[("    if (ref_tk == NOOP) {\n      // this is a noop, the alignment favors deletion\n      continue;\n    }\n","")]),
('ms-duration-bug','bug','C08',F,[("        part.start_ts = endTs;\n        part.end_ts = endTs;","        part.start_ts = 0;\n        part.end_ts = endTs;")]),
('ms-conf-bug','bug','C08',F,[("      part.confidence = ctmPart.confidence;\n","      if (ctmPart.confidence > 0) part.confidence = ctmPart.confidence;\n")]),
('ms-while-true','same','C08',F,[("  while (visitor.NextTriple(tk_pair)) {\n    string tk_classLabel","  for (;;) {\n    if (!visitor.NextTriple(tk_pair)) break;\n    string tk_classLabel")]),
('ms-reserve','same','C08',F,[("  vector<Stitching> stitches;\n  AlignmentTraversor","  vector<Stitching> stitches;\n  stitches.reserve(alignment.tokens.size());\n  AlignmentTraversor")]),
('ms-local-stitch','same','C08',F,[("    stitches.emplace_back();\n    Stitching &part = stitches.back();\n","    Stitching part{};\n"),
  ("      part.comment = \"del\";\n      continue;\n","      part.comment = \"del\";\n      stitches.push_back(part);\n      continue;\n"),
  ("      // this is a noop, the alignment favors deletion\n      continue;\n","      // this is a noop, the alignment favors deletion\n      stitches.push_back(part);\n      continue;\n"),
  ("    hypRowIndex++;\n  }\n","    hypRowIndex++;\n    stitches.push_back(std::move(part));\n  }\n")]),
# align_stitches_to_nlp
('al-index-for','same','C19',F,[("  while (alignedTokensIndex < numStitches) {\n    auto &stitch","  for (; alignedTokensIndex < numStitches;) {\n    Stitching &stitch")]),
('al-insprefix','same','C19',F,[("    if (stitch.comment.find(\"ins\") == 0) {\n      // there's no nlp row info for such case, let's skip over it\n      alignedTokensIndex++;","    if (stitch.comment.compare(0, 3, \"ins\") == 0) {\n      // there's no nlp row info for such case, let's skip over it\n      ++alignedTokensIndex;")]),
('al-run-lambda','same','C19',F,[(RUN,"""      auto sameStitch = [&](int p) { return stitches[p].classLabel == stitch.classLabel; };
      while (alignedTokensIndex + classLabelRowsInStitches < numStitches && sameStitch(alignedTokensIndex + classLabelRowsInStitches)) {
        classLabelRowsInStitches++;
      }
      auto sameRow = [&](int p) { return GetClassLabel(nlpRows[p].best_label) == nlp_classLabel; };
      while (nlpRowIndex + classLabelRowsInNlp < nlpMaxRow && sameRow(nlpRowIndex + classLabelRowsInNlp)) {
        classLabelRowsInNlp++;
      }
""")]),
('al-run-for','same','C19',F,[(RUN,"""      for (int p = alignedTokensIndex + 1; p < numStitches; p++) {
        if (stitch.classLabel != stitches[p].classLabel) break;
        classLabelRowsInStitches++;
      }
      for (int p = nlpRowIndex + 1; p < nlpMaxRow; p++) {
        if (nlp_classLabel != GetClassLabel(nlpRows[p].best_label)) break;
        classLabelRowsInNlp++;
      }
""")]),
('al-run-hoist','same','C19',F,[(RUN,RUN.split('\n\n')[1]+'\n' if 0 else "      while (nlpRowIndex + classLabelRowsInNlp < nlpMaxRow) {\n        int p = nlpRowIndex + classLabelRowsInNlp;\n        if (nlp_classLabel == GetClassLabel(nlpRows[p].best_label)) {\n          classLabelRowsInNlp++;\n          continue;\n        }\n\n        break;\n      }\n"),
  (RUN1,""),
  ("    } else {\n      while (nlpRowIndex +","    } else {\n      while (nlpRowIndex +"),
  ("    // handling various alignment cases:\n","    while (alignedTokensIndex + classLabelRowsInStitches < numStitches &&\n           stitch.classLabel == stitches[alignedTokensIndex + classLabelRowsInStitches].classLabel) {\n      classLabelRowsInStitches++;\n    }\n")]),
('al-run-helper','same','C19',F,[(RUN1,"      classLabelRowsInStitches += CountFollowing(stitches, alignedTokensIndex + classLabelRowsInStitches, stitch.classLabel);\n"),(RUN1,"      classLabelRowsInStitches += CountFollowing(stitches, alignedTokensIndex + classLabelRowsInStitches, stitch.classLabel);\n"),
  ("void align_stitches_to_nlp(NlpFst","""static int CountFollowing(const vector<Stitching> &stitches, int from, const string &label) {
  int n = 0;
  while (from + n < (int)stitches.size() && stitches[from + n].classLabel == label) n++;
  return n;
}

void align_stitches_to_nlp(NlpFst""")]),
('al-direct-from0','drop','C19',F,[(DIRECT,"""      for (int i = 0; i < classLabelRowsInNlp; i++) {
        stitches[alignedTokensIndex + i].nlpRow = nlpRows[nlpRowIndex + i];
        stitches[alignedTokensIndex + i].comment += ",direct";
      }
      alignedTokensIndex += classLabelRowsInNlp;
      nlpRowIndex += classLabelRowsInNlp;
      continue;
""")]),
('al-direct-from0b','drop','C19',F,[(DIRECT,"""      for (int i = 0; i < classLabelRowsInNlp; i++) {
        auto &s = stitches[alignedTokensIndex++];
        s.nlpRow = nlpRows[nlpRowIndex++];
        s.comment.append(",direct");
      }
      continue;
""")]),
('al-one-cond','same','C19',F,[("    if (classLabelRowsInNlp == classLabelRowsInStitches && classLabelRowsInStitches == 1) {","    if (classLabelRowsInNlp == 1 && classLabelRowsInStitches == 1) {")]),
('al-newrec-copy','same','C19',F,[(NEWREC,"""      RawNlpRecord newRecord;
      newRecord.token = nlpPart.token;
      newRecord.ts = nlpPart.ts;
      newRecord.endTs = nlpPart.endTs;
      newRecord.speakerId = nlpPart.speakerId;
      newRecord.wer_tags = nlpPart.wer_tags;
      newRecord.labels = nlpPart.labels;
      newRecord.best_label = nlpPart.best_label;
      newRecord.best_label_id = nlpPart.best_label_id;
""")]),
('al-nocond-loop','same','C19',F,[("      if (classLabelRowsInStitches > 2) {\n        for (int i = 1;","      {\n        for (int i = 1;")]),
('al-classify-helper','same','C19',F,[("    if (stitch.classLabel.find(\"_SYN_\") != string::npos) {","    if (IsSyn(stitch.classLabel)) {"),("void align_stitches_to_nlp(NlpFst","static bool IsSyn(const string &l) { return l.find(\"_SYN_\") != string::npos; }\n\nvoid align_stitches_to_nlp(NlpFst")]),
('al-labelsmatch-expr','same','C19',F,[("      if (nlp_classLabel != stitch.classLabel) {\n        labelsMatch = false;\n      }\n","      labelsMatch = nlp_classLabel == stitch.classLabel;\n")]),
('al-notin','same','C19',F,[("    if (inClassLabel == false && inSynonymPath == false) {","    if (!(inClassLabel || inSynonymPath)) {")]),
('al-size-cond','same','C19',F,[("    if (nlpRowIndex >= nlpMaxRow) {","    if (nlpRowIndex >= (int)nlpRows.size()) {")]),
('al-rowsref','same','C19',F,[("  auto nlpRows = refLoader.mNlpRows;","  const auto &nlpRows = refLoader.mNlpRows;"),("    auto nlpPart = nlpRows[nlpRowIndex];","    const auto &nlpPart = nlpRows[nlpRowIndex];"),("    auto lastNlpPartInClass =","    const RawNlpRecord &lastNlpPartInClass =")]),
('al-split-incr','same','C19',F,[("    // setting the index properly for the next turn...\n    nlpRowIndex += classLabelRowsInNlp;\n\n",""),("      alignedTokensIndex++;\n      continue;\n    }\n\n    // TODO","      alignedTokensIndex++;\n      nlpRowIndex += classLabelRowsInNlp;\n      continue;\n    }\n    nlpRowIndex += classLabelRowsInNlp;\n\n    // TODO")]),
('al-mid-local','same','C19',F,[("""      stitches[alignedTokensIndex].nlpRow = RawNlpRecord();
      stitches[alignedTokensIndex].nlpRow.speakerId = nlpPart.speakerId;
      stitches[alignedTokensIndex].nlpRow.punctuation = "";
      stitches[alignedTokensIndex].nlpRow.casing = "LC";
      stitches[alignedTokensIndex].nlpRow.labels = nlpPart.labels;
      stitches[alignedTokensIndex].nlpRow.wer_tags = nlpPart.wer_tags;
      stitches[alignedTokensIndex].comment += ",split_worst";
""","""      RawNlpRecord filler;
      filler.speakerId = nlpPart.speakerId;
      filler.casing = "LC";
      filler.labels = nlpPart.labels;
      filler.wer_tags = nlpPart.wer_tags;
      Stitching &mid = stitches[alignedTokensIndex];
      mid.nlpRow = filler;
      mid.comment += ",split_worst";
""")]),
('al-last-bug','bug','C19',F,[("auto lastNlpPartInClass = nlpRows[nlpRowIndex + classLabelRowsInNlp - 1];","auto lastNlpPartInClass = nlpRows[min(nlpRowIndex + classLabelRowsInNlp, nlpMaxRow - 1)];")]),
('al-tags-bug','bug','C19',F,[("      stitches[alignedTokensIndex].nlpRow.wer_tags = nlpPart.wer_tags;\n","      stitches[alignedTokensIndex].nlpRow.wer_tags = lastNlpPartInClass.wer_tags;\n")]),
('al-syn-bug','bug','C19',F,[("\"___%d_SYN_%d-%d___\", &tmpid, &classLabelRowsInNlp, &classLabelRowsInStitches","\"___%d_SYN_%d-%d___\", &tmpid, &classLabelRowsInStitches, &classLabelRowsInNlp")]),
('al-ran-out-bug','bug','C19',F,[("    if (nlpRowIndex >= nlpMaxRow) {","    if (nlpRowIndex >= nlpMaxRow - 1 && numStitches > 2) {")]),
# write_stitches
('wn-rangefor','same','C18',F,[(TAGS,"""    bool first = true;
    for (const auto &tag : stitch.nlpRow.wer_tags) {
      if (!first) output_nlp_file << ", ";
      output_nlp_file << "'" << tag.tag_id << "'";
      first = false;
    }
""")]),
('wn-index','same','C18',F,[(TAGS,"""    const auto &tags = stitch.nlpRow.wer_tags;
    for (size_t i = 0; i < tags.size(); i++) {
      if (i > 0) output_nlp_file << ", ";
      output_nlp_file << "'" << tags[i].tag_id << "'";
    }
""")]),
('wn-sep','same','C18',F,[(TAGS,"""    string sep;
    for (const auto &tag : stitch.nlpRow.wer_tags) {
      output_nlp_file << sep << "'" << tag.tag_id << "'";
      sep = ", ";
    }
""")]),
('wn-helper','same','C18',F,[(TAGS,"""    WriteTags(output_nlp_file, stitch.nlpRow.wer_tags);
"""),("void write_stitches_to_nlp(vec","""static void WriteTags(ofstream &out, const vector<WerTagEntry> &tags) {
  for (auto it = tags.begin(); it != tags.end(); ++it) {
    if (it != tags.begin()) out << ", ";
    out << "'" << it->tag_id << "'";
  }
}

void write_stitches_to_nlp(vec""")]),
('wn-isins','same','C18',F,[("    if (stitch.comment.find(\"ins\") == 0 && !add_inserts) {","    const bool is_ins = stitch.comment.rfind(\"ins\", 0) == 0;\n    if (is_ins && !add_inserts) {"),("    } else if (stitch.comment.find(\"ins\") == 0) {\n      assert","    } else if (is_ins) {\n      assert")]),
('wn-split-writes','same','C18',F,[("""    output_nlp_file << stitch.nlpRow.ts << "|" << stitch.nlpRow.endTs << "|";
    output_nlp_file << stitch.comment << "|" << stitch.nlpRow.confidence << endl;
""","""    const auto &row = stitch.nlpRow;
    output_nlp_file << row.ts;
    output_nlp_file << "|";
    output_nlp_file << row.endTs << '|' << stitch.comment << '|' << row.confidence << std::endl;
""")]),
('wn-ss','same','C18',F,[("    output_nlp_file << ref_tk << \"|\" << stitch.nlpRow.speakerId << \"|\";\n","    std::ostringstream line;\n    line << ref_tk << \"|\" << stitch.nlpRow.speakerId << \"|\";\n    output_nlp_file << line.str();\n")]),
('wn-newline','same','C18',F,[("                  << endl;\n  for","                  << \"\\n\";\n  for")]),
('wn-emptycand','same','C18',F,[("      if (norm_json[curr_label_id][\"candidates\"].size() > 0) {","      if (!norm_json[curr_label_id][\"candidates\"].empty()) {")]),
('wn-fmt','same','C18',F,[("      output_nlp_file << fmt::format(\"{0:.4f}\", stitch.start_ts) << \"|\" << fmt::format(\"{0:.4f}\", stitch.end_ts)\n                      << \"|\";","      output_nlp_file << fmt::format(\"{0:.4f}|{1:.4f}|\", stitch.start_ts, stitch.end_ts);")]),
('wn-ts-bug','bug','C18',F,[("output_nlp_file << stitch.nlpRow.ts << \"|\" << stitch.nlpRow.endTs << \"|\";","output_nlp_file << stitch.nlpRow.ts << \"|\" << (stitch.nlpRow.endTs.empty() ? stitch.nlpRow.ts : stitch.nlpRow.endTs) << \"|\";")]),
('wn-noop-bug','bug','C18',F,[("    if (ref_tk == NOOP) {\n      continue;\n    }\n\n    output","    if (stitch.reftk == NOOP) {\n      continue;\n    }\n\n    output")]),
('wn-ins-bug','bug','C18',F,[("      stitch.comment = \"ins(\" + stitch.hyptk + \")\";","      stitch.comment = \"ins(\" + (stitch.hyp_orig.empty() ? stitch.hyptk : stitch.hyp_orig) + \")\";")]),
# pipeline
('fa-relax-lambda','same','C23',F,[(RELAX,"""      auto isolated = [](const std::vector<int> &m, int x) { return m[x - 1] < 0 && m[x + 1] < 0; };
      for (int x = 1; x < mapA.size() - 1; x++) {
        if (isolated(mapA, x)) {
          dist_prime++;
          mapA[x] = -1;
        }
      }
""")]),
('fa-relax-helper','same','C23',F,[(RELAX,"      dist_prime += RelaxMap(mapA, 1);\n"),("""      for (int x = 1; x < mapB.size() - 2; x++) {
        if (mapB[x - 1] < 0 && mapB[x + 1] < 0) {
          mapB[x] = -1;
        }
      }
""","      RelaxMap(mapB, 2);\n"),("wer_alignment Fstalign(Fst","""static int RelaxMap(std::vector<int> &map, int margin) {
  int changed = 0;
  for (int x = 1; x < map.size() - margin; x++) {
    if (map[x - 1] < 0 && map[x + 1] < 0) {
      changed++;
      map[x] = -1;
    }
  }
  return changed;
}

wer_alignment Fstalign(Fst""")]),
('fa-usemap','same','C23',F,[("""    refFst = refLoader.convertToFst(symbol, {});
    hypFst = hypLoader.convertToFst(symbol, {});
  } else {
    refFst = refLoader.convertToFst(symbol, mapA);
    hypFst = hypLoader.convertToFst(symbol, mapB);
  }
""","""    mapA.clear();
    mapB.clear();
  }
  refFst = refLoader.convertToFst(symbol, mapA);
  hypFst = hypLoader.convertToFst(symbol, mapB);
""")]),
('fa-usemap2','same','C23',F,[("  if (MapContainsErrorStreaks(mapB, alignerOptions.levenstein_maximum_error_streak)) {\n    // Only","  const bool skipMap = MapContainsErrorStreaks(mapB, alignerOptions.levenstein_maximum_error_streak);\n  if (skipMap) {\n    // Only"),("""    refFst = refLoader.convertToFst(symbol, {});
    hypFst = hypLoader.convertToFst(symbol, {});
  } else {
    refFst = refLoader.convertToFst(symbol, mapA);
    hypFst = hypLoader.convertToFst(symbol, mapB);
  }
""","""  }
  const std::vector<int> none;
  refFst = refLoader.convertToFst(symbol, skipMap ? none : mapA);
  hypFst = hypLoader.convertToFst(symbol, skipMap ? none : mapB);
""")]),
('fa-minelem','same','C23',F,[("    sort(best_alignments.begin(), best_alignments.end(), sort_alignment);\n","    std::sort(best_alignments.begin(), best_alignments.end(), [](const wer_alignment &x, const wer_alignment &y) { return sort_alignment(x, y); });\n")]),
('fa-front','same','C23',F,[("    return best_alignments[0];","    return best_alignments.front();")]),
('fa-empty-first','same','C23',F,[("""  if (best_alignments.size() > 0) {
    sort(best_alignments.begin(), best_alignments.end(), sort_alignment);
    return best_alignments[0];
  }

  throw std::runtime_error("no alignment produced");
""","""  if (best_alignments.empty()) {
    throw std::runtime_error("no alignment produced");
  }
  sort(best_alignments.begin(), best_alignments.end(), sort_alignment);
  return best_alignments[0];
""")]),
('fa-symtab','same','C23',F,[("""  SymbolTable symbol;
  if (!alignerOptions.symbols_filename.empty()) {
    std::ifstream strm(alignerOptions.symbols_filename, std::ios_base::in);
    symbol = *(SymbolTable::ReadText(strm, "symbols"));
  } else {
    symbol = SymbolTable("symbols");
  }
""","""  SymbolTable symbol = LoadSymbols(alignerOptions.symbols_filename);
"""),("wer_alignment Fstalign(Fst","""static SymbolTable LoadSymbols(const string &filename) {
  if (filename.empty()) {
    return SymbolTable("symbols");
  }
  std::ifstream strm(filename, std::ios_base::in);
  return *(SymbolTable::ReadText(strm, "symbols"));
}

wer_alignment Fstalign(Fst""")]),
('fa-walk-inline','same','C23',F,[("    best_alignments = walker.walkComposed(composed_fst, symbol, options, alignerOptions.numBests);\n  } else if (alignerOptions.composition_approach == \"adapted\") {","    best_alignments = walker.walkComposed(composed_fst, symbol, options, alignerOptions.numBests);\n    logger->info(\"done\");\n  } else if (alignerOptions.composition_approach == \"adapted\") {")]),
('fa-uniqueptr','same','C23',F,[("  if (alignerOptions.composition_approach == \"standard\") {\n    StandardCompositionFst composed_fst(refFst, hypFst, symbol);\n    best_alignments = walker.walkComposed(composed_fst, symbol, options, alignerOptions.numBests);","  std::unique_ptr<IComposition> composed;\n  if (alignerOptions.composition_approach == \"standard\") {\n    composed = std::make_unique<StandardCompositionFst>(refFst, hypFst, symbol);"),
  ("    AdaptedCompositionFst composed_fst(refFst, hypFst, symbol);\n    // composed_fst.DebugComposedGraph();\n    best_alignments = walker.walkComposed(composed_fst, symbol, options, alignerOptions.numBests);","    composed = std::make_unique<AdaptedCompositionFst>(refFst, hypFst, symbol);"),
  ("  logger->info(\"done walking the graph\");","  best_alignments = walker.walkComposed(*composed, symbol, options, alignerOptions.numBests);\n  logger->info(\"done walking the graph\");")]),
('fa-dead-debug','same','C23',F,[("#if debug_levensten","#if 0")]),
('fa-order-bug','bug','C23',F,[("  refLoader.addToSymbolTable(symbol);\n  hypLoader.addToSymbolTable(symbol);\n","  refLoader.addToSymbolTable(symbol);\n  engine.GenerateSynFromSymbolTable(symbol);\n  hypLoader.addToSymbolTable(symbol);\n"),("  engine.GenerateSynFromSymbolTable(symbol);\n  logger->info(\"applying","  logger->info(\"applying")]),
('fa-numbest-bug','bug','C23',F,[("    // composed_fst.DebugComposedGraph();\n    best_alignments = walker.walkComposed(composed_fst, symbol, options, alignerOptions.numBests);","    best_alignments = walker.walkComposed(composed_fst, symbol, options, max(1, alignerOptions.numBests / 2));")]),
('hw-loaders-if','same','C23',F,[(LOADERS,"""  if (ctm_hyp_loader != nullptr) {
    stitches = make_stitches(topAlignment, ctm_hyp_loader->mCtmRows, {}, {}, use_case);
  } else if (nlp_hyp_loader != nullptr) {
    stitches = make_stitches(topAlignment, {}, nlp_hyp_loader->mNlpRows, {}, use_case);
  } else {
    vector<string> tokens;
    if (best_loader != nullptr) {
      for (int i = 0; i < best_loader->TokensSize(); ++i) tokens.emplace_back(best_loader->getToken(i));
    }
    stitches = make_stitches(topAlignment, {}, {}, tokens, use_case);
  }
""")]),
('hw-loaders-helper','same','C23',F,[(LOADERS,"""  stitches = StitchesFor(topAlignment, hypLoader, use_case);
"""),("  CtmFstLoader *ctm_hyp_loader = dynamic_cast<CtmFstLoader *>(&hypLoader);\n  NlpFstLoader *nlp_hyp_loader = dynamic_cast<NlpFstLoader *>(&hypLoader);\n  OneBestFstLoader *best_loader = dynamic_cast<OneBestFstLoader *>(&hypLoader);\n",""),
 ("void HandleWer(","""static vector<Stitching> StitchesFor(wer_alignment &alignment, FstLoader &hypLoader, bool use_case) {
  if (auto *ctm = dynamic_cast<CtmFstLoader *>(&hypLoader)) {
    return make_stitches(alignment, ctm->mCtmRows, {}, {}, use_case);
  }
  if (auto *nlp = dynamic_cast<NlpFstLoader *>(&hypLoader)) {
    return make_stitches(alignment, {}, nlp->mNlpRows, {}, use_case);
  }
  vector<string> tokens;
  if (auto *text = dynamic_cast<OneBestFstLoader *>(&hypLoader)) {
    const int n = text->TokensSize();
    tokens.reserve(n);
    for (int i = 0; i < n; i++) tokens.push_back(text->getToken(i));
  }
  return make_stitches(alignment, {}, {}, tokens, use_case);
}

void HandleWer(""")]),
('hw-early-return','same','C23',F,[("  if (!output_nlp.empty() && !nlp_ref_loader) {\n    logger->warn(","  if (nlp_ref_loader) return;\n  if (!output_nlp.empty()) {\n    logger->warn(")]),
('hw-case-neg','same','C23',F,[("    if (alignerOptions.speaker_switch_context_size > 0) {","    const int window = alignerOptions.speaker_switch_context_size;\n    if (window >= 1) {")]),
('hw-nlpout-bug','bug','C23',F,[("write_stitches_to_nlp(stitches, nlp_ostream, nlp_ref_loader->mJsonNorm, add_inserts_nlp);","write_stitches_to_nlp(stitches, nlp_ostream, nlp_ref_loader->mJsonNorm, add_inserts_nlp && use_case);")]),
('hw-case-order-bug','bug','C23',F,[("    RecordTagWer(stitches);\n    RecordSentenceWer(stitches);\n","    if (alignerOptions.record_case_stats) RecordTagWer(stitches);\n    RecordSentenceWer(stitches);\n")]),
('ha-auto','same','C23',F,[("  auto stitches = make_stitches(topAlignment, hypLoader.mCtmRows);","  const auto &rows = hypLoader.mCtmRows;\n  vector<Stitching> stitches = make_stitches(topAlignment, rows, {}, {}, false);")]),
('ms-uninit-stitch','bug','C08',F,[("    stitches.emplace_back();\n    Stitching &part = stitches.back();\n","    Stitching part;\n"),
  ("      part.comment = \"del\";\n      continue;\n","      part.comment = \"del\";\n      stitches.push_back(part);\n      continue;\n"),
  ("      // this is a noop, the alignment favors deletion\n      continue;\n","      // this is a noop, the alignment favors deletion\n      stitches.push_back(part);\n      continue;\n"),
  ("    hypRowIndex++;\n  }\n","    hypRowIndex++;\n    stitches.push_back(std::move(part));\n  }\n")]),
]
# inequivalent where a synonym label carries counts below one: kept out
V=[v for v in V if v[1]!='drop']
