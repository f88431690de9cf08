C='Ctm.cpp'; O='OneBestFstLoader.cpp'; N='Nlp.cpp'; U='utilities.cpp'; FF='FstFileLoader.cpp'
ARC="""    if (map_sz > wc && map[wc] > 0) {
      transducer.AddArc(prevState, StdArc(symbol.Find(token), symbol.Find(token), 1.0f, nextState));
    } else {
      transducer.AddArc(prevState, StdArc(symbol.Find(token), symbol.Find(token), 0.0f, nextState));
    }
"""
OARC="""    if (map_sz > wc && map[wc] > 0) {
      transducer.AddArc(prevState, fst::StdArc(tk_idx, tk_idx, 1.0f, nextState));
    } else {
      transducer.AddArc(prevState, fst::StdArc(tk_idx, tk_idx, 0.0f, nextState));
    }
"""
COLS="""  for (auto &c : first_line) {
    if (c == ' ' || c == '\\t') {
      if (lastChar != ' ' && lastChar != '\\t') {
        sz++;
      }
    }

    lastChar = c;
  }
"""
NREG="""    } else {
      // reguar token, we just progress of one state
      prevState = nextState;
      nextState++;
    }
"""
FUSE_HEAD="""      if (firstTk || curr_label != last_label) {"""
PUNC="""    if (use_punctuation && punctuation != "") {
      mToken.push_back(punctuation);
      mSpeakers.push_back(speaker);
      RawNlpRecord punc_row;
      punc_row.token = punc_row.punctuation;
      punc_row.speakerId = speaker;
      punc_row.punctuation = "";
      mNlpRows.push_back(punc_row);
    }
"""
LSYM="""          int token_sym = symbol.Find(ltoken);
          if (token_sym == -1) {
            token_sym = symbol.Find(options.symUnk);
          }
"""
FREE="""static int SymbolOrUnknown(const fst::SymbolTable &symbol, const std::string &token, const std::string &unk) {
  int id = symbol.Find(token);
  return id == -1 ? symbol.Find(unk) : id;
}

"""
V=[
# --- Ctm.cpp
('ctm-arc-weight','same','C14',C,[(ARC,"""    const float weight = (wc < map_sz && map[wc] > 0) ? 1.0f : 0.0f;
    const int label = symbol.Find(token);
    transducer.AddArc(prevState, StdArc(label, label, weight, nextState));
""")]),
('ctm-arc-helper','same','C14',C,[(ARC,"    AddWord(transducer, symbol.Find(token), prevState, nextState, map_sz > wc && map[wc] > 0);\n"),("StdVectorFst CtmFstLoader::convertToFst(","""static void AddWord(StdVectorFst &t, int label, int from, int to, bool favoured) {
  t.AddArc(from, StdArc(label, label, favoured ? 1.0f : 0.0f, to));
}

StdVectorFst CtmFstLoader::convertToFst(""")]),
('ctm-rangefor','same','C14',C,[("  for (TokenType::const_iterator i = mToken.begin(); i != mToken.end(); ++i) {\n    std::string token = *i;\n    if (!mUseCase) {","  for (std::string token : mToken) {\n    if (!mUseCase) {")]),
('ctm-index','same','C14',C,[("  for (TokenType::const_iterator i = mToken.begin(); i != mToken.end(); ++i) {\n    std::string token = *i;\n    if (!mUseCase) {\n      token = UnicodeLowercase(token);\n    }\n    transducer.AddState();","  for (size_t k = 0; k < mToken.size(); k++) {\n    std::string token = mUseCase ? mToken[k] : UnicodeLowercase(mToken[k]);\n    transducer.AddState();")]),
('ctm-no-nextstate','same','C14',C,[("    transducer.AddState();\n\n    if (map_sz","    nextState = transducer.AddState();\n\n    if (map_sz"),("    prevState = nextState;\n    nextState++;\n    wc++;","    prevState = nextState;\n    wc++;"),("  int nextState = 1;\n","  int nextState = 0;\n")]),
('ctm-start','same','C14',C,[("  transducer.AddState();\n  transducer.SetStart(0);\n\n  int prevState = 0;","  int prevState = transducer.AddState();\n  transducer.SetStart(prevState);\n")]),
('ctm-iv-pushback','same','C14',C,[("    vect.emplace_back(token_sym);","    vect.push_back(token_sym);")]),
('ctm-iv-helper','same','C14',C,[("""    int token_sym = symbol.Find(token);
    if (token_sym == -1) {
      token_sym = symbol.Find(options.symUnk);
    }
    vect.emplace_back(token_sym);""","    vect.emplace_back(SymbolOrUnknown(symbol, token, options.symUnk));"),("std::vector<int> CtmFstLoader::",FREE+"std::vector<int> CtmFstLoader::")]),
('ctm-iv-transform','same','C14',C,[("""  for (TokenType::const_iterator i = mToken.begin(); i != mToken.end(); ++i) {
    std::string token = *i;
    int token_sym = symbol.Find(token);
    if (token_sym == -1) {
      token_sym = symbol.Find(options.symUnk);
    }
    vect.emplace_back(token_sym);
  }
""","""  std::transform(mToken.begin(), mToken.end(), std::back_inserter(vect), [&](const std::string &token) {
    int token_sym = symbol.Find(token);
    if (token_sym == -1) {
      token_sym = symbol.Find(options.symUnk);
    }
    return token_sym;
  });
""")]),
('ctm-ctor-const','same','C14',C,[("""      std::string token = std::string(row.word);
      if (!mUseCase) {
        token = UnicodeLowercase(row.word);
      }
      mToken.push_back(token);
""","""      mToken.push_back(mUseCase ? row.word : UnicodeLowercase(row.word));
""")]),
('ctm-ctor-if','same','C14',C,[("""      std::string token = std::string(row.word);
      if (!mUseCase) {
        token = UnicodeLowercase(row.word);
      }
      mToken.push_back(token);
""","""      if (mUseCase) {
        mToken.emplace_back(row.word);
      } else {
        mToken.emplace_back(UnicodeLowercase(row.word));
      }
""")]),
('ctm-cols-helper','same','C10',C,[(COLS,"  sz = CountColumns(first_line);\n"),("  char lastChar = 'x';\n",""),("vector<RawCtmRecord> CtmReader::read_from_disk(","""static bool IsBlank(char c) { return c == ' ' || c == '\\t'; }

static int CountColumns(const string &line) {
  int n = 1;
  for (size_t i = 0; i < line.size(); i++) {
    if (IsBlank(line[i]) && (i == 0 || !IsBlank(line[i - 1]))) {
      n++;
    }
  }
  return n;
}

vector<RawCtmRecord> CtmReader::read_from_disk(""")]),
('ctm-cols-flag','same','C10',C,[(COLS,"""  for (char c : first_line) {
    const bool blank = c == ' ' || c == '\\t';
    const bool prevBlank = lastChar == ' ' || lastChar == '\\t';
    if (blank && !prevBlank) ++sz;
    lastChar = c;
  }
""")]),
('ctm-cols-inblank','same','C10',C,[(COLS,"""  bool inBlank = false;
  for (auto &c : first_line) {
    bool blank = (c == ' ' || c == '\\t');
    if (blank && !inBlank) sz++;
    inBlank = blank;
  }
"""),("  char lastChar = 'x';\n","")]),
('ctm-hasconf','same','C10',C,[("  bool hasConf = sz > 5 ? true : false;\n\n  if (hasConf) {\n    return read_from_disk_with_conf(filename);\n  } else {\n    return read_from_disk_no_conf(filename);\n  }","  return sz >= 6 ? read_from_disk_with_conf(filename) : read_from_disk_no_conf(filename);")]),
('ctm-empty-ret','same','C10',C,[("    vector<RawCtmRecord> vect;\n    return vect;\n  }\n\n  int sz","    return {};\n  }\n\n  int sz")]),
('ctm-move','same','C10',C,[("    record.confidence = stof(confidence);\n    vect.push_back(record);","    record.confidence = stof(confidence);\n    vect.push_back(std::move(record));")]),
('ctm-emplace','same','C10',C,[("""    RawCtmRecord record;
    record.recording = audiofile;
    record.channel = channel;
    record.start_time_secs = stof(start);
    record.duration_secs = stof(duration);
    record.word = word;
    record.confidence = 1;
    vect.push_back(record);
""","""    vect.emplace_back();
    RawCtmRecord &record = vect.back();
    record.recording = audiofile;
    record.channel = channel;
    record.word = word;
    record.start_time_secs = stof(start);
    record.duration_secs = stof(duration);
    record.confidence = 1;
""")]),
('ctm-cols-bug','bug','C10',C,[("    lastChar = c;\n  }","    if (c != '\\r') lastChar = c;\n  }\n  if (!first_line.empty() && (first_line.back() == ' ')) sz--;")]),
('ctm-weight-bug','bug','C14',C,[("if (map_sz > wc && map[wc] > 0)","if (map_sz > wc + 1 && map[wc] > 0)")]),
('ctm-unk-bug','bug','C14',C,[("      token_sym = symbol.Find(options.symUnk);","      token_sym = symbol.Find(options.symEps);")]),
# --- OneBest
('ob-arc','same','C14',O,[(OARC,"""    float weight = 0.0f;
    if (map_sz > wc && map[wc] > 0) {
      weight = 1.0f;
    }
    transducer.AddArc(prevState, fst::StdArc(tk_idx, tk_idx, weight, nextState));
""")]),
('ob-norm-helper','same','C14',O,[("""    std::string token = *i;
    if (!mUseCase) {
      token = UnicodeLowercase(token);
    }
    // fst::kNoSymbol""","""    std::string token = Normalized(*i, mUseCase);
    // fst::kNoSymbol"""),("void OneBestFstLoader::addTo","static std::string Normalized(const std::string &t, bool use_case) { return use_case ? t : UnicodeLowercase(t); }\n\nvoid OneBestFstLoader::addTo")]),
('ob-addif','same','C14',O,[("    // fst::kNoSymbol\n    if (symbol.Find(token) == -1) {\n      symbol.AddSymbol(token);\n    }","    AddSymbolIfNeeded(symbol, token);")]),
('ob-addalways','same','C14',O,[("    if (symbol.Find(token) == -1) {\n      symbol.AddSymbol(token);\n    }","    symbol.AddSymbol(token);")]),
('ob-member','same','C14',O,[("    if (symbol.Find(token) == -1) {","    if (!symbol.Member(token)) {")]),
('ob-load-while','same','C10',O,[("""  std::copy(std::istream_iterator<std::string>(stream), std::istream_iterator<std::string>(),
            std::back_inserter(mToken));

  stream.close();""","""  std::string word;
  while (stream >> word) {
    mToken.push_back(word);
  }

  stream.close();""")]),
('ob-build-while','same','C10',O,[("""  std::copy(std::istream_iterator<std::string>(mystream), std::istream_iterator<std::string>(),
            std::back_inserter(mToken));""","""  for (std::string word; mystream >> word;) mToken.push_back(word);""")]),
('ob-load-insert','same','C10',O,[("""  std::copy(std::istream_iterator<std::string>(stream), std::istream_iterator<std::string>(),
            std::back_inserter(mToken));

  stream""","""  mToken.insert(mToken.end(), std::istream_iterator<std::string>(stream), std::istream_iterator<std::string>());

  stream""")]),
('ob-open','same','C10',O,[("  if (!stream.is_open()) throw std::runtime_error(\"Cannot open input file\");","  if (!stream.is_open()) {\n    throw std::runtime_error(\"Cannot open input file\");\n  }\n")]),
('ob-open-bug','bug','C10',O,[("  if (!stream.is_open()) throw std::runtime_error(\"Cannot open input file\");","  if (!stream.is_open()) return;")]),
('ob-final','same','C14',O,[("transducer.SetFinal(realFinal, StdFst::Weight::One());","transducer.SetFinal(realFinal, 0.0f);")]),
('ob-eps-late','same','C14',O,[("  int eps_sym = symbol.Find(options.symEps);\n\n  fst","  fst"),("  int realFinal =","  const int eps_sym = symbol.Find(options.symEps);\n  int realFinal =")]),
('ob-case-bug','bug','C14',O,[("    std::string token = *i;\n    if (!mUseCase) {\n      token = UnicodeLowercase(token);\n    }\n    int token_sym","    std::string token = *i;\n    int token_sym")]),
# --- Nlp
('nlp-fuse-ref','same','C15',N,[("        int last_idx = mJsonNorm[curr_label_id][\"candidates\"].size() - 1;\n        mJsonNorm[curr_label_id][\"candidates\"][last_idx][\"verbalization\"].append(curr_tk);","        auto &cands = mJsonNorm[curr_label_id][\"candidates\"];\n        int last_idx = cands.size() - 1;\n        cands[last_idx][\"verbalization\"].append(curr_tk);")]),
('nlp-newlabel','same','C15',N,[(FUSE_HEAD,"      const bool startsLabel = firstTk || curr_label != last_label;\n      if (startsLabel) {")]),
('nlp-classlabel','same','C15',N,[("""        string nickname = string("___" + curr_label + "___");

        std::replace(nickname.begin(), nickname.end(), ':', '_');
        mToken.push_back(nickname);""","""        mToken.push_back(GetClassLabel(curr_label));""")]),
('nlp-nofirst','same','C15',N,[("firstTk || curr_label != last_label","curr_label != last_label")]),
('nlp-punc-lambda','same','C15',N,[(PUNC,"""    if (use_punctuation && !punctuation.empty()) {
      RawNlpRecord punc_row;
      punc_row.speakerId = speaker;
      mToken.push_back(punctuation);
      mSpeakers.push_back(speaker);
      mNlpRows.push_back(punc_row);
    }
""")]),
('nlp-tags-guard','same','C15',N,[("""    for (auto &tag : curr_row_tags) {
      if (mWerSidecar != Json::nullValue) {
        tag.entity_type = mWerSidecar[tag.tag_id]["entity_type"].asString();
      }
    }
    row.wer_tags = curr_row_tags;
""","""    if (mWerSidecar != Json::nullValue) {
      for (auto &tag : row.wer_tags) {
        tag.entity_type = mWerSidecar[tag.tag_id]["entity_type"].asString();
      }
    }
""")]),
('nlp-case-tern','same','C15',N,[("      if (!mUseCase) {\n        curr_tk = UnicodeLowercase(curr_tk);\n      }\n      mToken.push_back(curr_tk);","      mToken.push_back(mUseCase ? curr_tk : UnicodeLowercase(curr_tk));")]),
('nlp-sym-helper','same','C15',N,[(LSYM,"          int token_sym = SymbolOrUnknown(symbol, ltoken, options.symUnk);\n"),("fst::StdVectorFst NlpFstLoader::convertToFst(",FREE+"fst::StdVectorFst NlpFstLoader::convertToFst(")]),
('nlp-marklabels','same','C15',N,[("""      if (!markLabels) {
        /* original code */
        classPrevState = prevState;
        classNextState = nextState;
      } else {
        transducer.AddState();""","""      {
        transducer.AddState();"""),("""      if (!markLabels) {
        prevState = classNextState;
        nextState++;
      } else {
        prevState = classExitEndState;
        nextState++;
      }
""","      prevState = classExitEndState;\n      nextState++;\n"),("  bool markLabels = true;\n","")]),
('nlp-early-continue','same','C15',N,[("    if (isEntityLabel(token)) {\n      /*","    if (!isEntityLabel(token)) {\n      prevState = nextState++;\n      continue;\n    }\n\n    {\n      /*"),(NREG,"    }\n")]),
('nlp-cand-range','same','C15',N,[("""      for (Json::Value::ArrayIndex i = 0; i != candidates.size(); i++) {
        //
        prevState = classPrevState;
        auto candidate = candidates[i]["verbalization"];""","""      for (const auto &entry : candidates) {
        prevState = classPrevState;
        auto candidate = entry["verbalization"];""")]),
('nlp-cand-lt','same','C15',N,[("""      for (Json::Value::ArrayIndex i = 0; i != candidates.size(); i++) {
        //
        prevState""","""      for (int i = 0; i < (int)candidates.size(); ++i) {
        prevState""")]),
# out of reach: needs the invariant that the next state is the number of states
# ('nlp-state-from-add','same','C15',N,[("          transducer.AddState();\n          nextState++;\n","          nextState = transducer.AddState();\n")]),
('nlp-addsym-helper','same','C15',N,[("""          for (auto tk_itr : candidate) {
            std::string token = tk_itr.asString();
            if (!mUseCase) {
              token = UnicodeLowercase(token);
            }
            AddSymbolIfNeeded(symbol, token);
          }
""","""          for (const auto &word : candidate) {
            AddSymbolIfNeeded(symbol, mUseCase ? word.asString() : UnicodeLowercase(word.asString()));
          }
""")]),
('nlp-noise-fn','same','C15',N,[("    } else if (tk.find(\"<\") == 0 && tk.find(\">\") == tk.length() - 1) {","    } else if (IsNoisecodeToken(tk)) {")]),
('nlp-noise-tern','same','C15',N,[("""      if (colon_pos == string::npos) {
        AddSymbolIfNeeded(symbol, tk);
      } else {
        auto effective_tk = tk.substr(0, colon_pos) + ">";
        logger->info("trimming noisecode from [{}] to [{}]", tk, effective_tk);
        AddSymbolIfNeeded(symbol, effective_tk);
      }
""","""      const auto effective_tk = colon_pos == string::npos ? tk : tk.substr(0, colon_pos) + ">";
      AddSymbolIfNeeded(symbol, effective_tk);
""")]),
('nlp-noise-eraser','same','C15',N,[("        auto effective_tk = tk.substr(0, colon_pos) + \">\";\n        logger","        std::string effective_tk(tk, 0, colon_pos);\n        effective_tk += '>';\n        logger")]),
('nlp-speaker-bug','bug','C15',N,[("      mToken.push_back(punctuation);\n      mSpeakers.push_back(speaker);","      mToken.push_back(punctuation);\n      if (!speaker.empty()) mSpeakers.push_back(speaker);")]),
('nlp-label-bug','bug','C15',N,[("    firstTk = false;\n    last_label = curr_label;","    firstTk = false;\n    if (curr_label != \"\") last_label = curr_label;")]),
('nlp-exit-bug','bug','C15',N,[("fst::StdArc(eps_sym, eps_sym, 0.0f, classNextState)","fst::StdArc(eps_sym, eps_sym, 0.0f, candidate.size() > 1 ? classNextState : classNextState)"),("        prevState = classPrevState;\n        auto candidate","        prevState = i > 1 ? prevState : classPrevState;\n        auto candidate")]),
('nlp-rd-order','same','C10',N,[("    record.speakerId = speaker;\n    record.casing = casing;","    record.token = token;\n    record.casing = casing;\n    record.speakerId = speaker;"),("    record.token = token;\n    if (input","    if (input")]),
('nlp-rd-tern','same','C10',N,[("    if (input_nlp.has_column(\"confidence\")) {\n      record.confidence = confidence;\n    }","    record.confidence = input_nlp.has_column(\"confidence\") ? confidence : record.confidence;")]),
('nlp-rd-hoist','same','C10',N,[("  while (input_nlp.read_row(token","  const bool has_wer_tags = input_nlp.has_column(\"wer_tags\");\n  while (input_nlp.read_row(token"),("    if (input_nlp.has_column(\"wer_tags\")) {","    if (has_wer_tags) {")]),
('nlp-gl-substr','same','C10',N,[("""    // chop before the 1st comma, if needed
    auto pos = trimmed.find(",");
    if (pos != std::string::npos) {
      trimmed = trimmed.substr(0, pos);
    }
""","""    // chop before the 1st comma, if needed
    trimmed = trimmed.substr(0, trimmed.find(','));
""")]),
('nlp-gl-early','same','C10',N,[("""  } else if (labels.size() > 2) {
    // raw tags""","""  }
  if (labels.size() > 2) {
    // raw tags""")]),
('nlp-id-early','same','C10',N,[("""  if (label.size() == 0) {
    return "";
  } else if (label.size() > 2) {
    auto pos = label.find(":");""","""  if (label.empty()) return "";
  if (label.size() > 2) {
    const auto pos = label.find(':');""")]),
('nlp-wt-npos','same','C10',N,[("  while (pos != -1) {","  while (pos != std::string::npos) {")]),
('nlp-wt-sizet','same','C10',N,[("  int current_pos = 2;\n  auto pos","  size_t current_pos = 2;\n  size_t pos"),("    current_pos = wer_tags_str.find(\"'\", pos + 1) + 1;\n    if (current_pos == 0) {\n      break;\n    }\n","    const size_t opening = wer_tags_str.find(\"'\", pos + 1);\n    if (opening == std::string::npos) break;\n    current_pos = opening + 1;\n")]),
('nlp-wt-entry','same','C10',N,[("    WerTagEntry entry;\n    entry.tag_id = wer_tags_str.substr(current_pos, pos - current_pos);\n    wer_tags.push_back(entry);","    wer_tags.emplace_back();\n    wer_tags.back().tag_id = wer_tags_str.substr(current_pos, pos - current_pos);")]),
('nlp-wt-bug','bug','C10',N,[("    pos = wer_tags_str.find(\"'\", current_pos);\n  }","    pos = wer_tags_str.find(\"',\", current_pos);\n  }")]),
('nlp-gl-bug','bug','C10',N,[("auto pos = trimmed.find(\",\");","auto pos = trimmed.rfind(\",\");")]),
('nlp-rd-bug','bug','C10',N,[("    record.endTs = endTs;\n    record.best","    record.endTs = endTs.empty() ? oldEndTs : endTs;\n    record.best")]),
# --- utilities
('ut-iequals-loop','same','C12',U,[("  if (str1 == str2) {\n    return true;\n  }\n\n  return std::equal(str1.begin(), str1.end(), str2.begin(), iequal());","  for (size_t i = 0; i < str1.size(); i++) {\n    if (std::toupper(str1[i]) != std::toupper(str2[i])) {\n      return false;\n    }\n  }\n  return true;")]),
('ut-iequals-lambda','same','C12',U,[("  return std::equal(str1.begin(), str1.end(), str2.begin(), iequal());","  return std::equal(str1.begin(), str1.end(), str2.begin(), [](char a, char b) { return std::toupper(a) == std::toupper(b); });")]),
('ut-join-loop','same','C12',U,[("""  switch (elements.size()) {
    case 0:
      return "";
    case 1:
      return elements[0];
    default:
      std::ostringstream os;
      std::copy(elements.begin(), elements.end() - 1, std::ostream_iterator<std::string>(os, separator));
      os << *elements.rbegin();
      return os.str();
  }
""","""  std::string result;
  for (size_t i = 0; i < elements.size(); i++) {
    if (i > 0) result += separator;
    result += elements[i];
  }
  return result;
""")]),
('ut-join-if','same','C12',U,[("""  switch (elements.size()) {
    case 0:
      return "";
    case 1:
      return elements[0];
    default:
      std::ostringstream os;
      std::copy(elements.begin(), elements.end() - 1, std::ostream_iterator<std::string>(os, separator));
      os << *elements.rbegin();
      return os.str();
  }
""","""  if (elements.empty()) return "";
  std::ostringstream os;
  os << elements.front();
  for (auto it = elements.begin() + 1; it != elements.end(); ++it) {
    os << separator << *it;
  }
  return os.str();
""")]),
('ut-ngram-neg','same','C12 C20',U,[("""  if ((token.find(INS) != string::npos) || (token.find(DEL) != string::npos) || (token.find(EPSILON) != string::npos) ||
      (token.find("___") != string::npos)) {
    return false;
  } else {
    return true;
  }
""","""  for (const auto &marker : {INS, DEL, EPSILON, string("___")}) {
    if (token.find(marker) != string::npos) return false;
  }
  return true;
""")]),
('ut-ngram-and','same','C12 C20',U,[("""  if ((token.find(INS) != string::npos) || (token.find(DEL) != string::npos) || (token.find(EPSILON) != string::npos) ||
      (token.find("___") != string::npos)) {
    return false;
  } else {
    return true;
  }
""","""  auto has = [&token](const string &s) { return token.find(s) != string::npos; };
  return !has(INS) && !has(DEL) && !has(EPSILON) && !has("___");
""")]),
('ut-entity-compare','same','C12',U,[("bool isEntityLabel(const string &token) { return token.find(\"___\") == 0 ? true : false; }","bool isEntityLabel(const string &token) { return token.compare(0, 3, \"___\") == 0; }")]),
('ut-syn-call','same','C12',U,[("  return (token.find(\"___\") == 0 && token.find(\"_SYN_\") != std::string::npos) ? true : false;","  return isEntityLabel(token) && token.find(\"_SYN_\") != std::string::npos;")]),
('ut-labelid','same','C12',U,[("""  int p = label_id.find("_");
  if (p > 0) {
    label_id = label_id.substr(0, p);
  }

  return label_id;
""","""  const auto p = label_id.find('_');
  if (p == string::npos || p == 0) {
    return label_id;
  }
  return label_id.substr(0, p);
""")]),
('ut-classlabel','same','C12',U,[("""  string classlabel = string("___" + best_label + "___");
  std::replace(classlabel.begin(), classlabel.end(), ':', '_');
  return classlabel;
""","""  string classlabel = "___";
  for (char c : best_label) classlabel += (c == ':') ? '_' : c;
  return classlabel + "___";
""")]),
('ut-classlabel2','same','C12',U,[("""  string classlabel = string("___" + best_label + "___");
  std::replace(classlabel.begin(), classlabel.end(), ':', '_');
  return classlabel;
""","""  std::replace(best_label.begin(), best_label.end(), ':', '_');
  return "___" + best_label + "___";
""")]),
('ut-ends','same','C12',U,[("  return equal(ending.rbegin(), ending.rend(), value.rbegin(),","  return equal(ending.begin(), ending.end(), value.end() - ending.size(),")]),
('ut-ends-loop','same','C12',U,[("""  return equal(ending.rbegin(), ending.rend(), value.rbegin(),
               [](const char a, const char b) { return tolower(a) == tolower(b); });""","""  const size_t offset = value.size() - ending.size();
  for (size_t i = 0; i < ending.size(); i++) {
    if (tolower(ending[i]) != tolower(value[offset + i])) return false;
  }
  return true;""")]),
('ut-labelname','same','C12',U,[("""  string label_id = classLabel.substr(3, classLabel.size() - 6);
  string label = label_id.substr(label_id.find("_") + 1);
  return label;
""","""  const string label_id = classLabel.substr(3, classLabel.size() - 6);
  return label_id.substr(label_id.find('_') + 1);
""")]),
('ut-bigrams-idx','same','C20',U,[("""  for (auto it = flattened_tokens.begin(); it != std::prev(flattened_tokens.end()); ++it) {
    bi_words = {it->first, std::next(it)->first};""","""  for (size_t i = 0; i + 1 < flattened_tokens.size(); i++) {
    auto it = flattened_tokens.begin() + i;
    bi_words = {it->first, std::next(it)->first};""")]),
('ut-bigrams-concat','same','C20',U,[("    bi_words = {it->first, std::next(it)->first};\n    bigram_ref = string_join(bi_words, \" \");","    bigram_ref = it->first + \" \" + std::next(it)->first;"),("    bi_words = {it->second, std::next(it)->second};\n    bigram_hyp = string_join(bi_words, \" \");","    bigram_hyp = it->second + \" \" + std::next(it)->second;")]),
('ut-bigrams-helper','same','C20',U,[("""    if (isValidNgram(bigram_ref)) {
      topAlignment.ref_bigrams[bigram_ref] += 1;
      all_bigrams.insert(bigram_ref);
    }
""","""    CountNgram(bigram_ref, topAlignment.ref_bigrams, all_bigrams);
"""),("""    if (isValidNgram(bigram_hyp)) {
      topAlignment.hyp_bigrams[bigram_hyp] += 1;
      all_bigrams.insert(bigram_hyp);
    }
""","""    CountNgram(bigram_hyp, topAlignment.hyp_bigrams, all_bigrams);
"""),("unordered_set<string> get_bigrams(wer","""template <class M>
static void CountNgram(const string &gram, M &counts, unordered_set<string> &all) {
  if (!isValidNgram(gram)) return;
  ++counts[gram];
  all.emplace(gram);
}

unordered_set<string> get_bigrams(wer""")]),
('ut-flat-insert','same','C20',U,[("""          for (auto &labelTokens : label_alignment.tokens) {
            flattened_tokens.push_back(labelTokens);
          }
""","""          flattened_tokens.insert(flattened_tokens.end(), label_alignment.tokens.begin(), label_alignment.tokens.end());
""")]),
('ut-flat-continue','same','C20',U,[("""    if (isEntityLabel(tokens.first)) {
      auto class_label = tokens.first;
""","""    if (!isEntityLabel(tokens.first)) {
      flattened_tokens.push_back(tokens);
      continue;
    }
    {
      const auto &class_label = tokens.first;
"""),("""    } else {
      flattened_tokens.push_back(tokens);
    }
""","    }\n")]),
('ut-lab-bug','bug','C12',U,[("  int p = label_id.find(\"_\");\n  if (p > 0) {\n    label_id","  int p = label_id.rfind(\"_\");\n  if (p > 0) {\n    label_id")]),
('ut-noise-bug','bug','C12',U,[("token.find(\"<\") == 0 && token.find(\">\") == token.length() - 1; }","token.find(\"<\") == 0 && token.rfind(\">\") == token.length() - 1; }")]),
('ff-auto','same','C14',FF,[("  fst::StdVectorFst* transducer = fst::StdVectorFst::Read(filename_);","  auto* transducer = fst::StdVectorFst::Read(filename_);")]),
('ff-unique','same','C14',FF,[("  fst::StdVectorFst* transducer = fst::StdVectorFst::Read(filename_);","  std::unique_ptr<fst::StdVectorFst> transducer(fst::StdVectorFst::Read(filename_));")]),
]
