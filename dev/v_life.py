"""C25: lifetimes and nullness"""
B = 'C25'
M, W, F, U = 'main.cpp', 'wer.cpp', 'fstalign.cpp', 'utilities.cpp'
WK, PH, AC, SC, SE, AT = 'Walker.cpp', 'PathHeap.cpp', 'AdaptedComposition.cpp', 'StandardComposition.cpp', 'SynonymEngine.cpp', 'AlignmentTraversor.cpp'
V = [
 # ---- same
 ('lf-find-var', 'same', B, W, [('correct_words_counts.find(w)->second', 'correct_words_counts.at(w)')]),
 ('lf-find-if', 'same', B, W, [('    if (correct_words_counts.find(w) != correct_words_counts.end()) correct = correct_words_counts.find(w)->second;', '    auto it = correct_words_counts.find(w);\n    if (it != correct_words_counts.end()) correct = it->second;')]),
 ('lf-find-ifinit', 'same', B, W, [('    if (correct_words_counts.find(w) != correct_words_counts.end()) correct = correct_words_counts.find(w)->second;', '    if (auto it = correct_words_counts.find(w); it != correct_words_counts.end()) correct = it->second;')]),
 ('lf-find-neg', 'same', B, W, [('    if (correct_words_counts.find(w) != correct_words_counts.end()) correct = correct_words_counts.find(w)->second;', '    auto it = correct_words_counts.find(w);\n    if (it == correct_words_counts.end()) {\n      correct = 0;\n    } else {\n      correct = it->second;\n    }')]),
 ('lf-find-tern', 'same', B, W, [('    if (correct_words_counts.find(w) != correct_words_counts.end()) correct = correct_words_counts.find(w)->second;', '    auto it = correct_words_counts.find(w);\n    correct = it == correct_words_counts.end() ? 0 : it->second;')]),
 ('lf-find-flag', 'same', B, W, [('    if (correct_words_counts.find(w) != correct_words_counts.end()) correct = correct_words_counts.find(w)->second;', '    auto it = correct_words_counts.find(w);\n    const bool known = it != correct_words_counts.end();\n    if (known) correct = it->second;')]),
 ('lf-find-count', 'same', B, W, [('    if (correct_words_counts.find(w) != correct_words_counts.end()) correct = correct_words_counts.find(w)->second;', '    if (correct_words_counts.count(w) > 0) correct = correct_words_counts.find(w)->second;')]),
 ('lf-find-helper', 'same', B, W, [('    if (correct_words_counts.find(w) != correct_words_counts.end()) correct = correct_words_counts.find(w)->second;', '    correct = lookup(correct_words_counts, w);'),
    ('void UpdateHypCorrectAndAllwords', 'template <class M>\nstatic uint64_t lookup(const M &m, const string &w) {\n  auto it = m.find(w);\n  if (it == m.end()) return 0;\n  return it->second;\n}\n\nvoid UpdateHypCorrectAndAllwords')]),
 ('lf-find-lambda', 'same', B, W, [('    if (correct_words_counts.find(w) != correct_words_counts.end()) correct = correct_words_counts.find(w)->second;', '    auto lookup = [&w](const auto &m) -> uint64_t {\n      auto it = m.find(w);\n      return it != m.end() ? it->second : 0;\n    };\n    correct = lookup(correct_words_counts);')]),
 ('lf-emplace-ref', 'same', B, F, [('    stitches.emplace_back();\n    Stitching &part = stitches.back();', '    Stitching &part = stitches.emplace_back();')]),
 ('lf-emplace-idx', 'same', B, F, [('    Stitching &part = stitches.back();', '    Stitching &part = stitches[stitches.size() - 1];')]),
 ('lf-emplace-ptr', 'same', B, F, [('    stitches.emplace_back();\n    Stitching &part = stitches.back();', '    stitches.push_back(Stitching());\n    Stitching *last = &stitches.back();\n    Stitching &part = *last;')]),
 ('lf-dyn-switch', 'same', B, F, [('  if (ctm_hyp_loader) {', '  if (ctm_hyp_loader != nullptr) {'), ('  } else if (best_loader) {', '  } else if (nullptr != best_loader) {')]),
 ('lf-dyn-ref', 'same', B, F, [('  if (nlp_ref_loader) {', '  const bool rich = nlp_ref_loader != nullptr;\n  if (rich) {')]),
 ('lf-dyn-helper', 'same', B, F, [('  if (nlp_ref_loader) {', '  if (present(nlp_ref_loader)) {'), ('void HandleWer(', 'static bool present(const FstLoader *l) { return l != nullptr; }\n\nvoid HandleWer(')]),
 ('lf-main-split', 'same', B, M, [('    if (nlpRef == nullptr || ctmHyp == nullptr) {', '    const bool usable = nlpRef && ctmHyp;\n    if (!usable) {')]),
 ('lf-main-two', 'same', B, M, [('    if (nlpRef == nullptr || ctmHyp == nullptr) {', '    if (!nlpRef) {\n      console->error("no nlp");\n      return 1;\n    }\n    if (!ctmHyp) {')]),
 ('lf-erase-ret', 'same', B, PH, [('      heap.erase(iter++);', '      iter = heap.erase(iter);')]),
 ('lf-erase-post', 'same', B, PH, [('      heap.erase(iter++);', '      auto victim = iter++;\n      heap.erase(victim);')]),
 ('lf-erase-next', 'same', B, PH, [('      heap.erase(iter++);', '      auto after = std::next(iter);\n      heap.erase(iter);\n      iter = after;')]),
 ('lf-first-copy', 'same', B, PH, [('  auto logbookIter = heap.begin();\n  auto currentState_ptr = *logbookIter;\n  heap.erase(logbookIter);\n  return currentState_ptr;', '  std::shared_ptr<ShortlistEntry> first = *heap.begin();\n  heap.erase(heap.begin());\n  return first;')]),
 ('lf-first-ref', 'same', B, PH, [('  auto currentState_ptr = *logbookIter;\n  heap.erase(logbookIter);\n  return currentState_ptr;', '  const auto &ref = *logbookIter;\n  auto keep = ref;\n  heap.erase(logbookIter);\n  return keep;')]),
 ('lf-walk-ptr', 'same', B, WK, [('        global_wer_alignment.label_alignments.emplace_back();\n\n        class_label_wer_info = &global_wer_alignment.label_alignments.back();', '        auto &open = global_wer_alignment.label_alignments.emplace_back();\n        class_label_wer_info = &open;')]),
 ('lf-walk-null', 'same', B, WK, [('      if (class_label_wer_info == nullptr) {\n        // we are', '      if (!class_label_wer_info) {\n        // we are')]),
 ('lf-walk-flag', 'same', B, WK, [('      if (class_label_wer_info == nullptr) {\n        // we are', '      const bool outside = class_label_wer_info == nullptr;\n      if (outside) {\n        // we are')]),
 ('lf-walk-shared', 'same', B, WK, [('  SLE now = &currentState;', '  ShortlistEntry *now = &currentState;')]),
 ('lf-walk-for', 'same', B, WK, [('  while (now != nullptr) {\n    const MyArc&', '  for (; now;) {\n    const MyArc&')]),
 ('lf-walk-found', 'same', B, WK, [('  auto found = logbook.find(target_state);\n  if (found == logbook.end()) {', '  auto found = logbook.find(target_state);\n  bool unseen = found == logbook.end();\n  if (unseen) {')]),
 ('lf-walk-early', 'same', B, WK, [('      if (pp != nullptr) {\n        heapB->insert(pp);\n      }', '      if (pp == nullptr) continue;\n      heapB->insert(std::move(pp));')]),
 ('lf-trav-find', 'same', B, AT, [('      for (auto &a : root.label_alignments) {\n        if (a.classLabel == tk.first) {\n          currentSubclass = &a;\n          break;\n        }\n      }', '      auto pos = std::find_if(root.label_alignments.begin(), root.label_alignments.end(), [&tk](const wer_alignment &a) { return a.classLabel == tk.first; });\n      if (pos != root.label_alignments.end()) {\n        currentSubclass = &*pos;\n      }')]),
 ('lf-trav-idx', 'same', B, AT, [('      for (auto &a : root.label_alignments) {\n        if (a.classLabel == tk.first) {\n          currentSubclass = &a;\n          break;', '      for (size_t i = 0; i < root.label_alignments.size(); i++) {\n        if (root.label_alignments[i].classLabel == tk.first) {\n          currentSubclass = &root.label_alignments[i];\n          break;')]),
 ('lf-trav-it', 'same', B, AT, [('      for (auto &a : root.label_alignments) {\n        if (a.classLabel == tk.first) {\n          currentSubclass = &a;\n          break;', '      for (auto it = root.label_alignments.begin(); it != root.label_alignments.end(); ++it) {\n        if (it->classLabel == tk.first) {\n          currentSubclass = &(*it);\n          break;')]),
 ('lf-trav-ref', 'same', B, AT, [('    auto tk = currentSubclass->tokens[currentPosInSubclass];', '    const auto &tk = currentSubclass->tokens[currentPosInSubclass];')]),
 ('lf-syn-it', 'same', B, SE, [('      vector<SynKey> candidates = (*firstWordEntry).second;', '      vector<SynKey> &candidates = firstWordEntry->second;')]),
 ('lf-syn-arcval', 'same', B, SE, [('      const StdArc &arc = aiter.Value();\n      if (arc.nextstate == stateId) {', '      const StdArc arc = aiter.Value();\n      if (arc.nextstate == stateId) {')]),
 ('lf-syn-alt2', 'same', B, SE, [('        for (auto &alternative : synonyms[lhs]) {', '        const SynVals &alternatives = synonyms.at(lhs);\n        for (auto &alternative : alternatives) {')]),
 ('lf-sc-own', 'same', B, SC, [('  fstC_ = std::make_unique<fst::StdComposeFst>(halfCompose1, halfCompose2);', '  auto lazy = std::make_unique<fst::StdComposeFst>(halfCompose1, halfCompose2);\n  fstC_ = std::move(lazy);')]),
 ('lf-sc-reset', 'same', B, SC, [('  fstC_ = std::make_unique<fst::StdComposeFst>(halfCompose1, halfCompose2);', '  fstC_.reset(new fst::StdComposeFst(halfCompose1, halfCompose2));')]),
 ('lf-ac-ref', 'same', B, AC, [('  auto ref_state_pair = reversed_composed_states[stateId];\n  StateId refA = ref_state_pair.first;\n  StateId refB = ref_state_pair.second;\n\n  bool', '  const auto &ref_state_pair = reversed_composed_states.find(stateId)->second;\n  StateId refA = ref_state_pair.first;\n  StateId refB = ref_state_pair.second;\n\n  bool')] ),
 ('lf-ac-sym', 'same', B, AC, [('  if (symbols_ != NULL) {\n    return entity_label_ids[labelId];\n  }\n  return false;', '  return symbols_ && entity_label_ids[labelId];')]),
 ('lf-env', 'same', B, U, [('  if (val == nullptr) {  // invalid to assign nullptr to std::string\n    return default_value;\n  } else {\n    return val;\n  }', '  return val ? std::string(val) : default_value;')]),
 ('lf-env2', 'same', B, U, [('  if (val == nullptr) {  // invalid to assign nullptr to std::string\n    return default_value;\n  } else {\n    return val;\n  }', '  if (!val) return default_value;\n  return val;')]),
 ('lf-str', 'same', B, 'Nlp.cpp', [('    auto pos = label.find(":");', '    const std::string &whole = label;\n    auto pos = whole.find(":");')]),
 ('lf-logger', 'same', B, W, [('void RecordSpeakerWer(const vector<Stitching> &stitches) {\n', 'void RecordSpeakerWer(const vector<Stitching> &stitches) {\n  const Stitching *first = stitches.empty() ? nullptr : &stitches.front();\n  if (first != nullptr && first->classLabel.empty()) logger::GetOrCreateLogger("wer")->debug("odd");\n')]),
 ('lf-speaker-it', 'same', B, W, [('  if (speaker_wers.find(last_speaker) == speaker_wers.end()) {\n    speaker_wers[last_speaker] = {0, 0, 0, 0, 0};\n  }\n  speaker_wers[last_speaker].insertions += insertions;\n  speaker_wers[last_speaker].deletions += deletions;', '  auto &mine = speaker_wers[last_speaker];\n  mine.insertions += insertions;\n  mine.deletions += deletions;')]),
 ('lf-speaker-emp', 'same', B, W, [('  if (speaker_wers.find(last_speaker) == speaker_wers.end()) {\n    speaker_wers[last_speaker] = {0, 0, 0, 0, 0};\n  }\n  speaker_wers[last_speaker].insertions += insertions;\n  speaker_wers[last_speaker].deletions += deletions;', '  auto mine = speaker_wers.find(last_speaker);\n  if (mine == speaker_wers.end()) {\n    mine = speaker_wers.emplace(last_speaker, WerResult{0, 0, 0, 0, 0}).first;\n  }\n  mine->second.insertions += insertions;\n  mine->second.deletions += deletions;')]),
 ('lf-loop-it', 'same', B, W, [('  for (const auto &stitch : stitches) {\n      curr_wer.deletions', '  for (auto it = stitches.cbegin(); it != stitches.cend(); ++it) {\n      const Stitching &stitch = *it;\n      curr_wer.deletions')]),
 ('lf-temp-bind', 'same', B, W, [('      string label = GetLabelNameFromClassLabel(class_label_id);', '      const string &label = GetLabelNameFromClassLabel(class_label_id);')]),
 ('lf-cstr', 'same', B, F, [('      sscanf(stitch.classLabel.c_str(), ', '      const char *text = stitch.classLabel.c_str();\n      sscanf(text, ')]),
 ('lf-loader-new', 'same', B, 'FstFileLoader.cpp', [('  if (transducer == nullptr) throw', '  if (!transducer) throw')]),
 ('lf-loader-get', 'same', B, 'FstFileLoader.cpp', [('  if (transducer == nullptr) throw', '  const fst::StdVectorFst *raw = transducer.get();\n  if (raw == nullptr) throw')]),
 # ---- bugs
 ('lf-b-find', 'bug', B, W, [('    if (correct_words_counts.find(w) != correct_words_counts.end()) correct = correct_words_counts.find(w)->second;', '    correct = correct_words_counts.find(w)->second;')]),
 ('lf-b-find2', 'bug', B, W, [('    if (del_words_counts.find(w) != del_words_counts.end()) del = del_words_counts.find(w)->second;', '    if (correct_words_counts.find(w) != correct_words_counts.end()) del = del_words_counts.find(w)->second;')]),
 ('lf-b-findinv', 'bug', B, WK, [('  if (found == logbook.end()) {', '  if (found != logbook.end()) {')]),
 ('lf-b-walkfind', 'bug', B, WK, [('  auto found = logbook.find(target_state);\n  if (found == logbook.end()) {', '  auto found = logbook.find(target_state);\n  float before = found->second;\n  if (found == logbook.end()) {')]),
 ('lf-b-part', 'bug', B, F, [('    if (ref_tk == NOOP) {\n      // this is a noop', '    if (ref_tk == INS) {\n      stitches.reserve(stitches.size() + 16);\n    }\n    if (ref_tk == NOOP) {\n      // this is a noop')]),
 ('lf-b-part2', 'bug', B, F, [('    stitches.emplace_back();\n    Stitching &part = stitches.back();', '    stitches.emplace_back();\n    Stitching &part = stitches.back();\n    if (tk_classLabel != TK_GLOBAL_CLASS) stitches.emplace_back();')]),
 ('lf-b-parthelp', 'bug', B, F, [('    stitches.emplace_back();\n    Stitching &part = stitches.back();', '    stitches.emplace_back();\n    Stitching &part = stitches.back();\n    room(stitches);'), ('vector<Stitching> make_stitches(', 'static void room(vector<Stitching> &v) {\n  if (v.size() > 500) v.reserve(v.size() * 2);\n}\n\nvector<Stitching> make_stitches(')]),
 ('lf-b-dyn', 'bug', B, F, [('  } else if (best_loader) {', '  } else {'), ('    stitches = make_stitches(topAlignment, {}, {}, tokens, use_case);\n  } else {\n    stitches = make_stitches(topAlignment, {}, {}, {}, use_case);\n  }', '    stitches = make_stitches(topAlignment, {}, {}, tokens, use_case);\n  }')]),
 ('lf-b-dyn2', 'bug', B, F, [('  if (nlp_ref_loader) {', '  if (nlp_ref_loader || !output_nlp.empty()) {')]),
 ('lf-b-dyn3', 'bug', B, M, [('    if (nlpRef == nullptr || ctmHyp == nullptr) {', '    if (nlpRef == nullptr && ctmHyp == nullptr) {')]),
 ('lf-b-dyn4', 'bug', B, M, [('    if (nlpRef == nullptr || ctmHyp == nullptr) {', '    if (nlpRef == nullptr) {')]),
 ('lf-b-erase', 'bug', B, PH, [('      heap.erase(iter++);', '      heap.erase(iter);\n      iter++;')]),
 ('lf-b-erase2', 'bug', B, PH, [('      heap.erase(iter++);', '      heap.erase(iter);')]),
 ('lf-b-first', 'bug', B, PH, [('  auto currentState_ptr = *logbookIter;', '  const auto &currentState_ptr = *logbookIter;')]),
 ('lf-b-first2', 'bug', B, PH, [('  auto currentState_ptr = *logbookIter;\n  heap.erase(logbookIter);\n  return currentState_ptr;', '  heap.erase(logbookIter);\n  return *logbookIter;')]),
 ('lf-b-walkpp', 'bug', B, WK, [('      if (pp != nullptr) {\n        heapB->insert(pp);\n      }', '      logger->trace("cost {}", pp->costSoFar);\n      if (pp != nullptr) {\n        heapB->insert(pp);\n      }')]),
 ('lf-b-walkcls2', 'bug', B, WK, [('        if (class_label_wer_info != nullptr) {\n          class_label_wer_info->insertions++;', '        {\n          class_label_wer_info->insertions++;'), ('          class_label_wer_info->tokens.push_back(make_pair(INS, olabel));\n        } else {\n          global_wer_alignment', '          class_label_wer_info->tokens.push_back(make_pair(INS, olabel));\n        }\n        if (class_label_wer_info == nullptr) {\n          global_wer_alignment')]),
 ('lf-b-walkstale', 'bug', B, WK, [('        class_label_wer_info = &global_wer_alignment.label_alignments.back();\n        class_label_wer_info->classLabel = ilabel;', '        class_label_wer_info = &global_wer_alignment.label_alignments.back();\n        class_label_wer_info->classLabel = ilabel;\n        global_wer_alignment.label_alignments.shrink_to_fit();')]),
 ('lf-b-walkearly', 'bug', B, WK, [('        global_wer_alignment.label_alignments.emplace_back();\n\n        class_label_wer_info = &global_wer_alignment.label_alignments.back();', '        class_label_wer_info = &global_wer_alignment.label_alignments.back();\n        global_wer_alignment.label_alignments.emplace_back();\n')]),
 ('lf-b-trav', 'bug', B, AT, [('      for (auto &a : root.label_alignments) {', '      for (auto a : root.label_alignments) {')]),
 ('lf-b-trav2', 'bug', B, AT, [('      for (auto &a : root.label_alignments) {', '      auto copies = root.label_alignments;\n      for (auto &a : copies) {')]),
 ('lf-b-trav3', 'bug', B, AT, [('      for (auto &a : root.label_alignments) {\n        if (a.classLabel == tk.first) {\n          currentSubclass = &a;\n          break;\n        }\n      }', '      auto pos = std::find_if(root.label_alignments.begin(), root.label_alignments.end(), [&tk](const wer_alignment &a) { return a.classLabel == tk.first; });\n      currentSubclass = &*pos;')]),
 ('lf-b-trav4', 'bug', B, AT, [('      currentSubclass = nullptr;\n      currentPosInSubclass = -1;\n      return NextTriple(triple);', '      currentSubclass = nullptr;\n      currentPosInSubclass = -1;\n      triple.classLabel = currentSubclass->classLabel;\n      return NextTriple(triple);')]),
 ('lf-b-synarc', 'bug', B, SE, [('            local_pair = make_pair(currState, newArc);\n            arcsToAdd.push_back(local_pair);\n          }\n        }', '            local_pair = make_pair(currState, newArc);\n            fst.AddArc(local_pair.first, local_pair.second);\n          }\n        }')]),
 ('lf-b-synref', 'bug', B, SE, [('      vector<SynKey> candidates = (*firstWordEntry).second;', '      vector<SynKey> &candidates = firstWordInRules.begin()->second;\n      firstWordInRules.clear();')]),
 ('lf-b-synnotest', 'bug', B, SE, [('      if (firstWordEntry == firstWordInRules.end()) {\n        // no match, let\'s move\n        continue;\n      }', '      if (firstWordInRules.empty()) {\n        continue;\n      }')]),
 ('lf-b-scearly', 'bug', B, SC, [('    throw std::runtime_error("Hypothesis graph has no complete path");', '    return;')]),
 ('lf-b-scmove', 'bug', B, SC, [('  fstC_ = std::make_unique<fst::StdComposeFst>(halfCompose1, halfCompose2);', '  auto lazy = std::make_unique<fst::StdComposeFst>(halfCompose1, halfCompose2);\n  fstC_ = std::move(lazy);\n  logger_->trace("start {}", lazy->Start());')]),
 ('lf-b-acref', 'bug', B, AC, [('  auto itr = composed_states.find(state_pair);\n  if (itr == composed_states.end()) {\n    if (TRACE) {', '  auto itr = composed_states.find(state_pair);\n  if (composed_states.empty()) {\n    if (TRACE) {')]),
 ('lf-b-view', 'bug', B, W, [('      string label = GetLabelNameFromClassLabel(class_label_id);', '      std::string_view view = GetLabelNameFromClassLabel(class_label_id);\n      string label(view);')]),
 ('lf-b-cstr', 'bug', B, W, [('      string label = GetLabelNameFromClassLabel(class_label_id);', '      const char *text = GetLabelNameFromClassLabel(class_label_id).c_str();\n      string label = text;')]),
 ('lf-b-loader', 'bug', B, 'FstFileLoader.cpp', [('  if (transducer == nullptr) throw std::runtime_error("Cannot read input fst");', '  if (filename_.empty()) throw std::runtime_error("Cannot read input fst");')]),
 ('lf-b-symref', 'bug', B, AC, [('  SetSymbols(&symbols);\n', '  fst::SymbolTable own(symbols);\n  SetSymbols(&own);\n')]),

 ('lf-exit-ref', 'same', B, F, [('  AlignmentTraversor visitor(alignment);', '  wer_alignment &all = alignment;\n  AlignmentTraversor visitor(all);')]),
 ('lf-loop-idx', 'same', B, SE, [('  for (auto &p : arcsToAdd) {', '  for (size_t i = 0; i < arcsToAdd.size(); i++) {\n    auto &p = arcsToAdd[i];')]),
 ('lf-while-it', 'same', B, W, [('    for (auto &a : class_results) {\n      string label_name = a.first;\n      WerResult wr = a.second;', '    auto it = class_results.begin();\n    while (it != class_results.end()) {\n      string label_name = it->first;\n      WerResult wr = it->second;\n      ++it;')]),
 ('lf-b-travtemp', 'bug', B, F, [('  AlignmentTraversor visitor(alignment);', '  auto own = std::make_unique<wer_alignment>(alignment);\n  AlignmentTraversor visitor(*own);\n  own.reset();')]),
 ('lf-b-resit', 'bug', B, W, [('      if (class_results.find(label) == class_results.end()) {', '      auto known = class_results.find(label);\n      if (known == class_results.end()) {'), ('      class_results[label].numWordsInReference += a', '      known->second.numWordsInReference += a')]),
 ('lf-b-pushloop', 'bug', B, W, [('    for (auto &a : topAlignment.label_alignments) {\n      string class_label_id = a.classLabel;', '    for (auto &a : topAlignment.label_alignments) {\n      if (a.tokens.empty()) topAlignment.label_alignments.pop_back();\n      string class_label_id = a.classLabel;')]),
 ('lf-b-maperase', 'bug', B, W, [('    for (auto &a : class_results) {\n      string label_name', '    for (auto &a : class_results) {\n      if (a.second.numWordsInReference == 0) class_results.erase(a.first);\n      string label_name')]),
 ('lf-b-getref', 'bug', B, WK, [('    auto currentState_ptr = heapA->removeFirst();\n    auto currentState = *currentState_ptr;', '    auto &currentState = *heapA->removeFirst();\n    auto currentState_ptr = make_shared<ShortlistEntry>(currentState);')]),
 ('lf-b-itermod', 'bug', B, WK, [('      arcsLeaving++;\n', '      arcsLeaving++;\n      if (arc.ilabel == 0 && arc.olabel == 0) arcs_leaving_state.push_back(arc);\n')]),
]
