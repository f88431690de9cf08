U='utilities.cpp'; O='OneBestFstLoader.cpp'; C='Ctm.cpp'; N='Nlp.cpp'; F='fstalign.cpp'
LOAD='C10 C12 C14 C15 C16 C21 C25'
ALLC='C06 C07 C09 C10 C11 C12 C13 C14 C20 C21 C22 C23'
GB="""  for (auto it = flattened_tokens.begin(); it != std::prev(flattened_tokens.end()); ++it) {
    bi_words = {it->first, std::next(it)->first};
    bigram_ref = string_join(bi_words, " ");"""
V=[
('u-gb-index','same','C12 C20 C16 C21 C25',U,[(GB,"""  for (size_t k = 0; k + 1 < flattened_tokens.size(); ++k) {
    const auto it = flattened_tokens.begin() + k;
    bi_words = {it->first, std::next(it)->first};
    bigram_ref = string_join(bi_words, " ");""")]),
('u-gb-insert','same','C12 C20 C16 C21 C25',U,[("""          for (auto &labelTokens : label_alignment.tokens) {
            flattened_tokens.push_back(labelTokens);
          }
""","""          flattened_tokens.insert(flattened_tokens.end(), label_alignment.tokens.begin(), label_alignment.tokens.end());
""")]),
('u-gb-copy','same','C12 C20 C16 C21 C25',U,[("""          for (auto &labelTokens : label_alignment.tokens) {
            flattened_tokens.push_back(labelTokens);
          }
""","""          std::copy(label_alignment.tokens.begin(), label_alignment.tokens.end(), std::back_inserter(flattened_tokens));
""")]),
('u-gb-lambda','same','C12 C20 C16 C21 C25',U,[("""    if (isValidNgram(bigram_ref)) {
      topAlignment.ref_bigrams[bigram_ref] += 1;
      all_bigrams.insert(bigram_ref);
    }
""","""    count(topAlignment.ref_bigrams, bigram_ref);
"""),("""    if (isValidNgram(bigram_hyp)) {
      topAlignment.hyp_bigrams[bigram_hyp] += 1;
      all_bigrams.insert(bigram_hyp);
    }
""","""    count(topAlignment.hyp_bigrams, bigram_hyp);
"""),("  for (auto it = flattened_tokens.begin(); it !=","""  auto count = [&all_bigrams](auto &counts, const std::string &bigram) {
    if (!isValidNgram(bigram)) return;
    counts[bigram]++;
    all_bigrams.emplace(bigram);
  };
  for (auto it = flattened_tokens.begin(); it !=""")]),
('u-gb-concat','same','C12 C20 C16 C21 C25',U,[("""    bi_words = {it->first, std::next(it)->first};
    bigram_ref = string_join(bi_words, " ");""","""    const auto &cur = *it;
    const auto &nxt = *std::next(it);
    bigram_ref = cur.first + " " + nxt.first;"""),("""    bi_words = {it->second, std::next(it)->second};
    bigram_hyp = string_join(bi_words, " ");""","""    bigram_hyp = cur.second + " " + nxt.second;""")]),
('u-gcl','same','C12 C16 C25 C21',U,[("""  if (best_label == "") {
    return "";
  }

  string classlabel = string("___" + best_label + "___");
  std::replace(classlabel.begin(), classlabel.end(), ':', '_');
  return classlabel;
""","""  if (best_label.empty()) return {};
  for (char &c : best_label) {
    if (c == ':') c = '_';
  }
  return "___" + best_label + "___";
""")]),
('u-join','same','C12 C20 C16 C21 C25',U,[("""  switch (elements.size()) {
    case 0:
      return "";
    case 1:
      return elements[0];
    default:
      std::ostringstream os;
      std::copy(elements.begin(), elements.end() - 1, std::ostream_iterator<std::string>(os, separator));
      os << *elements.rbegin();
      return os.str();
  }
""","""  std::string joined;
  for (size_t i = 0; i < elements.size(); ++i) {
    if (i != 0) joined += separator;
    joined += elements[i];
  }
  return joined;
""")]),
('u-lid','same','C12 C16 C25 C21',U,[("""  auto label_id = token.substr(3, token.size() - 6);

  // Isolate the ID at the start of the label, separated by _
  int p = label_id.find("_");
  if (p > 0) {
    label_id = label_id.substr(0, p);
  }

  return label_id;
""","""  const std::string body = token.substr(3, token.size() - 6);
  const auto p = body.find('_');
  if (p == std::string::npos || p == 0) {
    return body;
  }
  return body.substr(0, p);
""")]),
('u-valid','same','C12 C20 C16 C21 C25',U,[("""  if ((token.find(INS) != string::npos) || (token.find(DEL) != string::npos) || (token.find(EPSILON) != string::npos) ||
      (token.find("___") != string::npos)) {
    return false;
  } else {
    return true;
  }
""","""  const auto contains = [&token](const std::string &needle) { return token.find(needle) != std::string::npos; };
  return !(contains(INS) || contains(DEL) || contains(EPSILON) || contains("___"));
""")]),
('u-valid2','same','C12 C20 C16 C21 C25',U,[("""  if ((token.find(INS) != string::npos) || (token.find(DEL) != string::npos) || (token.find(EPSILON) != string::npos) ||
      (token.find("___") != string::npos)) {
    return false;
  } else {
    return true;
  }
""","""  for (const std::string &marker : {INS, DEL, EPSILON, std::string("___")}) {
    if (token.find(marker) != string::npos) return false;
  }
  return true;
""")]),
('o-range','same',LOAD,O,[("""  for (TokenType::const_iterator i = mToken.begin(); i != mToken.end(); ++i) {
    std::string token = *i;
    if (!mUseCase) {
      token = UnicodeLowercase(token);
    }
    // fst""","""  for (const auto &raw : mToken) {
    const std::string token = mUseCase ? raw : UnicodeLowercase(raw);
    // fst""")]),
('o-enum','same',LOAD,O,[("""  for (TokenType::const_iterator i = mToken.begin(); i != mToken.end(); ++i) {
    std::string token = *i;
    if (!mUseCase) {
      token = UnicodeLowercase(token);
    }
    transducer.AddState();
""","""  for (size_t pos = 0; pos < mToken.size(); ++pos) {
    std::string token = mToken[pos];
    if (!mUseCase) {
      token = UnicodeLowercase(token);
    }
    transducer.AddState();
"""),("""    if (map_sz > wc && map[wc] > 0) {
      transducer.AddArc(prevState, fst::StdArc(tk_idx, tk_idx, 1.0f, nextState));
    } else {
      transducer.AddArc(prevState, fst::StdArc(tk_idx, tk_idx, 0.0f, nextState));
    }

    prevState = nextState;
    nextState++;
    wc++;
""","""    const bool forced = pos < map.size() && map[pos] > 0;
    transducer.AddArc(pos, fst::StdArc(tk_idx, tk_idx, forced ? 1.0f : 0.0f, pos + 1));
    ++wc;
    prevState = nextState++;
""")]),
('o-state','same',LOAD,O,[("""    transducer.AddState();

    int tk_idx""","""    nextState = transducer.AddState();

    int tk_idx"""),("""    prevState = nextState;
    nextState++;
    wc++;
""","""    prevState = nextState;
    wc++;
""")]),
('o-transform','same',LOAD,O,[("""  for (TokenType::const_iterator i = mToken.begin(); i != mToken.end(); ++i) {
    std::string token = *i;
    if (!mUseCase) {
      token = UnicodeLowercase(token);
    }
    int token_sym = symbol.Find(token);
    if (token_sym == -1) {
      token_sym = symbol.Find(options.symUnk);
    }
    vect.emplace_back(token_sym);
  }
""","""  std::transform(mToken.begin(), mToken.end(), std::back_inserter(vect), [&](const auto &raw) -> int {
    const auto sym = symbol.Find(mUseCase ? raw : UnicodeLowercase(raw));
    return sym == -1 ? symbol.Find(options.symUnk) : sym;
  });
"""),("#include","#include <algorithm>\n#include")]),
('c-ctor-transform','same',LOAD,C,[("""    for (auto &row : mCtmRows) {
      std::string token = std::string(row.word);
      if (!mUseCase) {
        token = UnicodeLowercase(row.word);
      }
      mToken.push_back(token);
    }
""","""    mToken.reserve(mCtmRows.size());
    std::transform(mCtmRows.begin(), mCtmRows.end(), std::back_inserter(mToken),
                   [use_case](const RawCtmRecord &row) { return use_case ? row.word : UnicodeLowercase(row.word); });
"""),("#include <csv/csv.h>","#include <csv/csv.h>\n#include <algorithm>")]),
('c-ctor-init','same',LOAD,C,[("bool use_case) : FstLoader() {\n  {\n    mCtmRows = records;\n    mUseCase = use_case;\n","bool use_case) : FstLoader(), mCtmRows(records) {\n  {\n mUseCase = use_case;\n")]),
('c-weight','same',LOAD,C,[("""    if (map_sz > wc && map[wc] > 0) {
      transducer.AddArc(prevState, StdArc(symbol.Find(token), symbol.Find(token), 1.0f, nextState));
    } else {
      transducer.AddArc(prevState, StdArc(symbol.Find(token), symbol.Find(token), 0.0f, nextState));
    }
""","""    const int label = symbol.Find(token);
    StdArc arc(label, label, 0.0f, nextState);
    if (wc < map_sz && map[wc] > 0) {
      arc.weight = 1.0f;
    }
    transducer.AddArc(prevState, arc);
""")]),
('c-read-emplace','same',LOAD,C,[("""    RawCtmRecord record;
    record.recording = audiofile;
    record.channel = channel;
    record.start_time_secs = stof(start);
    record.duration_secs = stof(duration);
    record.word = word;
    record.confidence = 1;
    vect.push_back(record);
""","""    vect.emplace_back();
    auto &record = vect.back();
    record.recording = audiofile;
    record.channel = channel;
    record.start_time_secs = stof(start);
    record.duration_secs = stof(duration);
    record.word = word;
    record.confidence = 1;
""")]),
('c-read-helper','same',LOAD,C,[("""    RawCtmRecord record;
    record.recording = audiofile;
    record.channel = channel;
    record.start_time_secs = stof(start);
    record.duration_secs = stof(duration);
    record.word = word;
    record.confidence = 1;
    vect.push_back(record);
""","""    vect.push_back(MakeRecord(audiofile, channel, start, duration, word, 1));
"""),("""    RawCtmRecord record;
    record.recording = audiofile;
    record.channel = channel;
    record.start_time_secs = stof(start);
    record.duration_secs = stof(duration);
    record.word = word;
    record.confidence = stof(confidence);
    vect.push_back(record);
""","""    vect.push_back(MakeRecord(audiofile, channel, start, duration, word, stof(confidence)));
"""),("vector<RawCtmRecord> read_from_disk_no_conf","""static RawCtmRecord MakeRecord(const string &audiofile, const string &channel, const string &start,
                               const string &duration, const string &word, float confidence) {
  RawCtmRecord record;
  record.recording = audiofile;
  record.channel = channel;
  record.start_time_secs = stof(start);
  record.duration_secs = stof(duration);
  record.word = word;
  record.confidence = confidence;
  return record;
}

vector<RawCtmRecord> read_from_disk_no_conf""")]),
('c-peek-bool','same',LOAD,C,[("""  int sz = 1;
  char lastChar = 'x';

  for (auto &c : first_line) {
    if (c == ' ' || c == '\\t') {
      if (lastChar != ' ' && lastChar != '\\t') {
        sz++;
      }
    }

    lastChar = c;
  }
""","""  int sz = 1;
  bool inBlank = false;
  for (const char c : first_line) {
    const bool blank = c == ' ' || c == '\\t';
    if (blank && !inBlank) ++sz;
    inBlank = blank;
  }
""")]),
('c-peek-tern','same',LOAD,C,[("""  bool hasConf = sz > 5 ? true : false;

  if (hasConf) {
    return read_from_disk_with_conf(filename);
  } else {
    return read_from_disk_no_conf(filename);
  }
""","""  return sz > 5 ? read_from_disk_with_conf(filename) : read_from_disk_no_conf(filename);
""")]),
('n-gwt','same',LOAD,N,[("""    WerTagEntry entry;
    entry.tag_id = wer_tags_str.substr(current_pos, pos - current_pos);
    wer_tags.push_back(entry);
""","""    wer_tags.emplace_back();
    wer_tags.back().tag_id = wer_tags_str.substr(current_pos, pos - current_pos);
"""),("while (pos != -1) {","while (pos != std::string::npos) {")]),
('n-gwt-for','same',LOAD,N,[("""  int current_pos = 2;
  auto pos = wer_tags_str.find("'", current_pos);
  while (pos != -1) {
""","""  int current_pos = 2;
  for (auto pos = wer_tags_str.find("'", current_pos); pos != std::string::npos;
       pos = wer_tags_str.find("'", current_pos)) {
"""),("""      break;
    }
    pos = wer_tags_str.find("'", current_pos);
  }
""","""      break;
    }
  }
""")]),
('n-gbl','same',LOAD,N,[("""    auto pos = trimmed.find(",");
    if (pos != std::string::npos) {
      trimmed = trimmed.substr(0, pos);
    }
""","""    trimmed = trimmed.substr(0, trimmed.find(','));
""")]),
('n-gbl2','same',LOAD,N,[("""    auto pos = trimmed.find(",");
    if (pos != std::string::npos) {
      trimmed = trimmed.substr(0, pos);
    }
""","""    const auto pos = trimmed.find_first_of(',');
    if (pos != std::string::npos) {
      trimmed.resize(pos);
    }
""")]),
('n-gbl3','same',LOAD,N,[("""    auto pos = trimmed.find(",");
    if (pos != std::string::npos) {
      trimmed = trimmed.substr(0, pos);
    }
""","""    const auto pos = trimmed.find(',');
    if (pos != std::string::npos) {
      trimmed.erase(pos);
    }
""")]),
('n-ctor-ref','same',LOAD,N,[("""    auto curr_row_tags = row.wer_tags;

    // Update wer tags in records to real string labels
    for (auto &tag : curr_row_tags) {
      if (mWerSidecar != Json::nullValue) {
        tag.entity_type = mWerSidecar[tag.tag_id]["entity_type"].asString();
      }
    }
    row.wer_tags = curr_row_tags;
""","""    if (mWerSidecar != Json::nullValue) {
      for (auto &tag : row.wer_tags) {
        tag.entity_type = mWerSidecar[tag.tag_id]["entity_type"].asString();
      }
    }
""")]),
('n-ctor-gcl','same',LOAD,N,[("""        string nickname = string("___" + curr_label + "___");

        std::replace(nickname.begin(), nickname.end(), ':', '_');
        mToken.push_back(nickname);
""","""        mToken.push_back(GetClassLabel(curr_label));
""")]),
('n-ctor-push','same',LOAD,N,[("""      RawNlpRecord punc_row;
      punc_row.token = punc_row.punctuation;
      punc_row.speakerId = speaker;
      punc_row.punctuation = "";
      mNlpRows.push_back(punc_row);
""","""      mNlpRows.emplace_back();
      mNlpRows.back().speakerId = speaker;
""")]),
('n-ctor-lam','same',LOAD,N,[("""  bool firstTk = true;

  // fuse""","""  bool firstTk = true;
  const auto addToken = [this](const std::string &token, const std::string &speaker) {
    mToken.push_back(token);
    mSpeakers.push_back(speaker);
  };

  // fuse"""),("""        mToken.push_back(nickname);
        mSpeakers.push_back(speaker);
""","""        addToken(nickname, speaker);
"""),("""      mToken.push_back(curr_tk);
      mSpeakers.push_back(speaker);
""","""      addToken(curr_tk, speaker);
"""),("""      mToken.push_back(punctuation);
      mSpeakers.push_back(speaker);
""","""      addToken(punctuation, speaker);
""")]),
('n-sym-lam','same',LOAD,N,[("""            std::string token = tk_itr.asString();
            if (!mUseCase) {
              token = UnicodeLowercase(token);
            }
            AddSymbolIfNeeded(symbol, token);
""","""            const std::string verbalized = tk_itr.asString();
            AddSymbolIfNeeded(symbol, mUseCase ? verbalized : UnicodeLowercase(verbalized));
""")]),
('n-sym-noise','same',LOAD,N,[('} else if (tk.find("<") == 0 && tk.find(">") == tk.length() - 1) {','} else if (IsNoisecodeToken(tk)) {')]),
('n-sym-cont','same',LOAD,N,[("""      AddSymbolIfNeeded(symbol, tk);
      std::string label_id = getLabelIdFromToken(tk);

      if (mJsonNorm != Json::nullValue) {
""","""      AddSymbolIfNeeded(symbol, tk);
      if (mJsonNorm == Json::nullValue) continue;
      const std::string label_id = getLabelIdFromToken(tk);
      {
""")]),
('n-sym-range','same',LOAD,N,[("""        for (Json::Value::ArrayIndex i = 0; i != candidates.size(); i++) {
          //
          auto candidate = candidates[i]["verbalization"];
          for (auto tk_itr : candidate) {
            std::string token""","""        for (const auto &entry : candidates) {
          const auto &candidate = entry["verbalization"];
          for (const auto &tk_itr : candidate) {
            std::string token""")]),
('n-fst-getor','same',LOAD,N,[("""    int token_sym = symbol.Find(token);
    if (token_sym == -1) {
      token_sym = symbol.Find(options.symUnk);
    }

    // logger->info("wc""","""    const auto idOrUnk = [&](const std::string &t) -> int {
      const auto id = symbol.Find(t);
      return id != -1 ? id : symbol.Find(options.symUnk);
    };
    const int token_sym = idOrUnk(token);

    // logger->info("wc"""),("""          int token_sym = symbol.Find(ltoken);
          if (token_sym == -1) {
            token_sym = symbol.Find(options.symUnk);
          }

          transducer.AddArc(prevState, fst::StdArc(token_sym, token_sym, 0.0f, nextState));
""","""          const int word_sym = idOrUnk(ltoken);
          transducer.AddArc(prevState, fst::StdArc(word_sym, word_sym, 0.0f, nextState));
""")]),
('n-fst-nomark','same',LOAD,N,[("""      if (!markLabels) {
        prevState = classNextState;
        nextState++;
      } else {
        prevState = classExitEndState;
        nextState++;
      }

    } else {
      // reguar token, we just progress of one state
      prevState = nextState;
      nextState++;
    }
""","""      prevState = markLabels ? classExitEndState : classNextState;
    } else {
      // reguar token, we just progress of one state
      prevState = nextState;
    }
    nextState++;
""")]),
]
