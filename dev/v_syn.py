F='SynonymEngine.cpp'
def whole(file, start, new):
    s = open('/repo/src/' + file).read()
    i = s.index(start)
    j = s.index('{', i); d = 0
    while True:
        if s[j] == '{': d += 1
        if s[j] == '}':
            d -= 1
            if d == 0: break
        j += 1
    return (s[i:j + 1], new)
V=[
('syn-load-direct','same','C13',F,[whole(F,'void SynonymEngine::LoadFile','''void SynonymEngine::LoadFile(string filename) {
  ifstream input(filename);

  if (!input) {
    throw std::runtime_error("Cannot open input file");
  }

  vector<string> lines;
  for (string s; std::getline(input, s);) {
    lines.emplace_back(s);
  }

  ParseStrings(lines);
}''')]),
('syn-key-ret','same','C13',F,[whole(F,'SynKey SynonymEngine::GetKeyFromString','''SynKey SynonymEngine::GetKeyFromString(string lhs) {
  SynKey key;
  strtk::split(" ", lhs, strtk::range_to_type_back_inserter(key), strtk::split_options::compress_delimiters);
  return key;
}''')]),
('syn-vals-helper','same','C13',F,[whole(F,'SynVals SynonymEngine::GetValuesFromStrings','''SynVals SynonymEngine::GetValuesFromStrings(string rhs) {
  vector<string> alternatives;
  strtk::split(";", rhs, strtk::range_to_type_back_inserter(alternatives), strtk::split_options::compress_delimiters);

  logger_->debug("with rhs = [{}], we have {} alternatives", rhs, alternatives.size());

  SynVals values;
  values.reserve(alternatives.size());
  for (const auto &alt : alternatives) {
    values.push_back(GetKeyFromString(trim_copy(alt)));
    logger_->debug("   for alt [{}], we have {} tokens", alt, values.back().size());
  }

  return values;
}''')]),
('syn-parse-split','same','C13',F,[('''  vector<string> parts;
  for (auto &line : lines) {
    trim(line);
    if (line.empty() || line.find('#') == 0) {
      // skipping comments or empty lines
      continue;
    }

    parts.clear();
''','''  for (auto &line : lines) {
    trim(line);
    const bool is_comment = !line.empty() && line[0] == '#';
    if (line.empty() || is_comment) {
      // skipping comments or empty lines
      continue;
    }

    vector<string> parts;
''')]),
('syn-parse-count','same','C13',F,[('''    if (synonyms.find(key) == synonyms.end()) {
      // new entry
      auto values = GetValuesFromStrings(rhs);
      synonyms[key] = values;
    } else {''','''    if (synonyms.count(key) == 0) {
      // new entry
      synonyms.emplace(key, GetValuesFromStrings(rhs));
    } else {''')]),
('syn-parse-invert','same','C13',F,[('''    if (synonyms.find(key) == synonyms.end()) {
      // new entry
      auto values = GetValuesFromStrings(rhs);
      synonyms[key] = values;
    } else {
      logger_->warn(
          "WARNING: the entry [{}] was found multiple time, skipping "
          "redefinition",
          lhs);
    }
''','''    if (synonyms.find(key) != synonyms.end()) {
      logger_->warn(
          "WARNING: the entry [{}] was found multiple time, skipping "
          "redefinition",
          lhs);
      continue;
    }

    // new entry
    synonyms[key] = GetValuesFromStrings(rhs);
''')]),
('syn-parse-helper','same','C13',F,[('''void SynonymEngine::ParseStrings(''','''static bool IsIgnorableLine(const string &line) {
  return line.empty() || line.find('#') == 0;
}

void SynonymEngine::ParseStrings('''),('''    if (line.empty() || line.find('#') == 0) {''','''    if (IsIgnorableLine(line)) {''')]),
('syn-seek-early','same','C13',F,[whole(F,'vector<int> SeekForward','''vector<int> SeekForward(SynKey &lhs, int lhsPos, StdVectorFst &fst, int startingStateId, SymbolTable &symbol) {
  if (lhsPos >= lhs.size()) {
    // we reached the end of the LHS stack, this node is our
    // destination
    return {startingStateId};
  }

  const int kNoSymbol = -1;
  const int labelId = symbol.Find(lhs[lhsPos]);
  vector<int> lastStates;
  if (labelId == kNoSymbol) {
    return lastStates;
  }

  for (ArcIterator<StdFst> aiter(fst, startingStateId); !aiter.Done(); aiter.Next()) {
    const fst::StdArc &arc = aiter.Value();
    // self loops are ignored
    if (arc.nextstate == startingStateId || arc.ilabel != labelId) {
      continue;
    }

    auto endStates = SeekForward(lhs, lhsPos + 1, fst, arc.nextstate, symbol);
    lastStates.insert(lastStates.end(), endStates.begin(), endStates.end());
  }

  return lastStates;
}''')]),
('syn-seek-range','same','C13',F,[('''      copy(endStates.begin(), endStates.end(), back_inserter(lastStates));''','''      for (int endState : endStates) {
        lastStates.push_back(endState);
      }''')]),
('syn-gen-for','same','C13',F,[('''  SymbolTableIterator symIter(symbol);
  while (!symIter.Done()) {
    auto sym = symIter.Symbol();
    symIter.Next();
    int''','''  for (SymbolTableIterator symIter(symbol); !symIter.Done(); symIter.Next()) {
    auto sym = symIter.Symbol();
    int''')]),
('syn-gen-last','same','C13',F,[('''    int hyphen_idx = sym.find('-');
    if (hyphen_idx < 0) {
      continue;
    }
''','''    int hyphen_idx = sym.find('-');
    if (hyphen_idx < 0) {
      continue;
    }
    const bool ends_in_hyphen = hyphen_idx == sym.length() - 1;
'''),('''    if (!opts_.disable_cutoffs && hyphen_idx == sym.length() - 1) {''','''    if (ends_in_hyphen && !opts_.disable_cutoffs) {'''),
 ('''    } else if (!opts_.disable_hyphen_ignore && hyphen_idx != sym.length() - 1) {''','''    } else if (!ends_in_hyphen && !opts_.disable_hyphen_ignore) {''')]),
('syn-gen-insert','same','C13',F,[('''      if (synonyms.find(key) == synonyms.end()) {
        // Only add the cutoff synonym if no synonym is already defined
        synonyms[key] = values;
      }
''','''      // Only add the cutoff synonym if no synonym is already defined
      synonyms.insert(make_pair(key, values));
'''),('''      if (synonyms.find(hyphenated) == synonyms.end()) {
        // Add hyphenated --> unhyphenated synonym
        synonyms[hyphenated] = {new_words};
      }
''','''      // Add hyphenated --> unhyphenated synonym
      synonyms.emplace(hyphenated, SynVals{new_words});
''')]),
('syn-gen-addsym','same','C13',F,[('''      int id = symbol.Find(new_word);
      if (id == kNoSymbol) {
        id = symbol.AddSymbol(new_word);
      }
''','''      if (symbol.Find(new_word) == kNoSymbol) {
        symbol.AddSymbol(new_word);
      }
'''),('''        int id = symbol.Find(w);
        if (id == kNoSymbol) {
          id = symbol.AddSymbol(w);
        }
''','''        // adding a symbol that is there already is a no-op
        symbol.AddSymbol(w);
''')]),
('syn-gen-npos','same','C13',F,[('''    int hyphen_idx = sym.find('-');
    if (hyphen_idx < 0) {
      continue;
    }
''','''    const auto hyphen_idx = sym.find('-');
    if (hyphen_idx == string::npos) {
      continue;
    }
''')]),
('syn-gen-method','same','C13',F,[('''      // Generate other hyphenation rules
      vector<string> new_words;
      strtk::split("-", trim_copy(sym), strtk::range_to_type_back_inserter(new_words),
                   strtk::split_options::compress_delimiters);
''','''      // Generate other hyphenation rules
      vector<string> new_words = SplitCompound(sym);
'''),('''void SynonymEngine::GenerateSynFromSymbolTable''','''static vector<string> SplitCompound(const string &word) {
  vector<string> parts;
  strtk::split("-", trim_copy(word), strtk::range_to_type_back_inserter(parts),
               strtk::split_options::compress_delimiters);
  return parts;
}

void SynonymEngine::GenerateSynFromSymbolTable''')]),
('syn-app-rules','same','C13',F,[('''      if (firstWordInRules.find(id) == firstWordInRules.end()) {
        firstWordInRules[id] = vector<SynKey>();
      }

      firstWordInRules[id].push_back(entry.first);
''','''      firstWordInRules[id].push_back(entry.first);
'''),('''  for (auto entry : synonyms) {
    auto tk = entry.first[0];''','''  for (const auto &entry : synonyms) {
    const auto &tk = entry.first.front();''')]),
('syn-app-for','same','C13',F,[('''  StateIterator<StdVectorFst> siter(fst);
  vector<pair<int, StdArc>> arcsToAdd;
  int synonym_replacement_id = 100000;
  while (!siter.Done()) {
    int stateId = siter.Value();
    siter.Next();
''','''  vector<pair<int, StdArc>> arcsToAdd;
  int synonym_replacement_id = 100000;
  for (StateIterator<StdVectorFst> siter(fst); !siter.Done(); siter.Next()) {
    int stateId = siter.Value();
''')]),
('syn-app-emplace','same','C13',F,[('''          StdArc newArc(syn_classlabel_wid, syn_classlabel_wid, 0.0f, nextState);
          pair<int, StdArc> local_pair;
          local_pair = make_pair(currState, newArc);
          arcsToAdd.push_back(local_pair);
          currState = nextState;
''','''          arcsToAdd.emplace_back(stateId, StdArc(syn_classlabel_wid, syn_classlabel_wid, 0.0f, nextState));
          currState = nextState;
'''),('''            StdArc newArc(wid, wid, 0.0f, nextState);
            pair<int, StdArc> local_pair;
            local_pair = make_pair(currState, newArc);
            arcsToAdd.push_back(local_pair);
''','''            arcsToAdd.push_back(make_pair(currState, StdArc(wid, wid, 0.0f, nextState)));
''')]),
('syn-app-lambda','same','C13',F,[('''  StateIterator<StdVectorFst> siter(fst);
  vector<pair<int, StdArc>> arcsToAdd;
''','''  StateIterator<StdVectorFst> siter(fst);
  vector<pair<int, StdArc>> arcsToAdd;
  auto scheduleArc = [&arcsToAdd](int from, int label, int to) {
    arcsToAdd.push_back(make_pair(from, StdArc(label, label, 0.0f, to)));
  };
'''),('''          StdArc newArc(syn_classlabel_wid, syn_classlabel_wid, 0.0f, nextState);
          pair<int, StdArc> local_pair;
          local_pair = make_pair(currState, newArc);
          arcsToAdd.push_back(local_pair);
          currState = nextState;
''','''          scheduleArc(currState, syn_classlabel_wid, nextState);
          currState = nextState;
'''),('''            StdArc newArc(wid, wid, 0.0f, nextState);
            pair<int, StdArc> local_pair;
            local_pair = make_pair(currState, newArc);
            arcsToAdd.push_back(local_pair);
''','''            scheduleArc(currState, wid, nextState);
'''),('''            StdArc newArc(syn_classlabel_wid, syn_classlabel_wid, 0.0f, kk);
            pair<int, StdArc> local_pair;
            local_pair = make_pair(currState, newArc);
            arcsToAdd.push_back(local_pair);
''','''            scheduleArc(currState, syn_classlabel_wid, kk);
''')]),
('syn-app-words','same','C13',F,[('''          for (int j = 0; j < alternative.size(); j++) {
            auto w = alternative[j];
''','''          for (const auto &w : alternative) {
''')]),
('syn-app-getid','same','C13',F,[('''            int wid = symbol.Find(w);
            if (wid == kNoSymbol) {
              wid = symbol.AddSymbol(w);
              logger_->info("registering word {} as {}", w, wid);
            }
''','''            int wid = GetOrAddSymbol(symbol, w);
'''),('''void SynonymEngine::ApplyToFst''','''static int GetOrAddSymbol(SymbolTable &symbol, const string &word) {
  int id = symbol.Find(word);
  if (id != -1) {
    return id;
  }
  return symbol.AddSymbol(word);
}

void SynonymEngine::ApplyToFst''')]),
('syn-app-empty','same','C13',F,[('''        if (lastTargetStates.size() == 0) {''','''        if (lastTargetStates.empty()) {'''),('''      vector<SynKey> candidates = (*firstWordEntry).second;''','''      auto &candidates = firstWordEntry->second;''')]),
('syn-app-label','same','C13',F,[('''          string syn_classlabel = "___" + to_string(synonym_replacement_id++) + "_SYN_" + to_string(lhs.size()) + "-" +
                                  to_string(alternative.size()) + "___";
''','''          string syn_classlabel = MakeSynonymLabel(synonym_replacement_id, lhs.size(), alternative.size());
          synonym_replacement_id++;
'''),('''void SynonymEngine::ApplyToFst''','''static string MakeSynonymLabel(int id, size_t replaced, size_t replacement) {
  std::ostringstream label;
  label << "___" << id << "_SYN_" << replaced << "-" << replacement << "___";
  return label.str();
}

void SynonymEngine::ApplyToFst''')]),
('syn-app-addbranch','same','C13',F,[('''  for (auto &p : arcsToAdd) {
    logger_->debug("adding arc between {} and {} with label_id {}", p.first, p.second.nextstate, p.second.ilabel);
    fst.AddArc(p.first, p.second);
  }''','''  for (size_t i = 0; i < arcsToAdd.size(); ++i) {
    const int from = arcsToAdd[i].first;
    const StdArc &newArc = arcsToAdd[i].second;
    fst.AddArc(from, newArc);
  }''')]),
('bug-syn-comment','bug','C13',F,[("line.find('#') == 0","line.find('#') != string::npos")]),
('bug-syn-first','bug','C13',F,[('''      synonyms[key] = values;
    } else {''','''      synonyms[key] = values;
    } else if (synonyms[key].empty()) {
      synonyms[key] = GetValuesFromStrings(rhs);
    } else {''')]),
('bug-syn-cut','bug','C13',F,[('''        // Only add the cutoff synonym if no synonym is already defined
        synonyms[key] = values;
      }''','''      }
      synonyms[key] = values;''')]),
('bug-syn-hyph','bug','C13',F,[('''synonyms[new_words] = {hyphenated};''','''if (new_words.size() == 2) synonyms[new_words] = {hyphenated};''')]),
('bug-syn-label','bug','C13',F,[('''to_string(lhs.size()) + "-" +
                                  to_string(alternative.size())''','''to_string(alternative.size()) + "-" +
                                  to_string(lhs.size())''')]),
('bug-syn-id','bug','C13',F,[('''          string syn_classlabel = "___" + to_string(synonym_replacement_id++)''','''          string syn_classlabel = "___" + to_string(synonym_replacement_id + (int)lastTargetStates.size())''')]),
('bug-syn-seek','bug','C13',F,[('''    if (arc.nextstate == stateId) {
      // if we're pointing to ourselves, let's ignore that
      continue;
    }

    int label_id = arc.ilabel;
    if (label_id''','''    int label_id = arc.ilabel;
    if (label_id''')]),
]
