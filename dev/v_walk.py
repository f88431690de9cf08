F='Walker.cpp'
P='PathHeap.cpp'
T='AlignmentTraversor.cpp'
INS1="""        global_wer_alignment.insertions++;
        global_wer_alignment.numWordsInHypothesis++;

        global_wer_alignment.hyp_words.push_back(olabel);
        global_wer_alignment.ref_words.push_back(INS);

        // keep track of the attractors
        global_wer_alignment.ins_words.push_back(olabel);

        if (class_label_wer_info != nullptr) {
          class_label_wer_info->insertions++;
          class_label_wer_info->numWordsInHypothesis++;

          class_label_wer_info->hyp_words.push_back(olabel);
          class_label_wer_info->ref_words.push_back(INS);

          // keep track of the attractors
          class_label_wer_info->ins_words.push_back(olabel);
          class_label_wer_info->tokens.push_back(make_pair(INS, olabel));
        } else {
          global_wer_alignment.tokens.push_back(make_pair(INS, olabel));
        }
"""
DEL1="""        global_wer_alignment.deletions++;
        global_wer_alignment.numWordsInReference++;
        global_wer_alignment.ref_words.push_back(ilabel);
        global_wer_alignment.hyp_words.push_back(DEL);

        // keep track of the repellant words
        global_wer_alignment.del_words.push_back(ilabel);

        if (class_label_wer_info != nullptr) {
          class_label_wer_info->deletions++;
          class_label_wer_info->numWordsInReference++;
          class_label_wer_info->ref_words.push_back(ilabel);
          class_label_wer_info->hyp_words.push_back(DEL);

          // keep track of the repellant words
          class_label_wer_info->del_words.push_back(ilabel);
          class_label_wer_info->tokens.push_back(make_pair(ilabel, DEL));
        } else {
          global_wer_alignment.tokens.push_back(make_pair(ilabel, DEL));
        }
"""
V=[
('tally-ins-helper','same','C01',F,[(INS1,"""        RecordInsertion(global_wer_alignment, olabel);
        if (class_label_wer_info != nullptr) {
          RecordInsertion(*class_label_wer_info, olabel);
          class_label_wer_info->tokens.push_back(make_pair(INS, olabel));
        } else {
          global_wer_alignment.tokens.push_back(make_pair(INS, olabel));
        }
"""),("wer_alignment Walker::GetDetailsFromTopCandidates(","""static void RecordInsertion(wer_alignment &wa, const string &word) {
  wa.insertions++;
  wa.numWordsInHypothesis++;
  wa.hyp_words.push_back(word);
  wa.ref_words.push_back(INS);
  wa.ins_words.push_back(word);
}

wer_alignment Walker::GetDetailsFromTopCandidates(""")]),
('tally-tokens-target','same','C01',F,[(INS1,"""        global_wer_alignment.insertions++;
        global_wer_alignment.numWordsInHypothesis++;
        global_wer_alignment.hyp_words.push_back(olabel);
        global_wer_alignment.ref_words.push_back(INS);
        global_wer_alignment.ins_words.push_back(olabel);
        if (class_label_wer_info != nullptr) {
          class_label_wer_info->insertions++;
          class_label_wer_info->numWordsInHypothesis++;
          class_label_wer_info->hyp_words.push_back(olabel);
          class_label_wer_info->ref_words.push_back(INS);
          class_label_wer_info->ins_words.push_back(olabel);
        }
        wer_alignment &target = class_label_wer_info != nullptr ? *class_label_wer_info : global_wer_alignment;
        target.tokens.emplace_back(INS, olabel);
""")]),
('tally-del-lambda','same','C01',F,[(DEL1,"""        auto record = [&](wer_alignment &wa) {
          wa.deletions++;
          wa.numWordsInReference++;
          wa.ref_words.push_back(ilabel);
          wa.hyp_words.push_back(DEL);
          wa.del_words.push_back(ilabel);
        };
        record(global_wer_alignment);
        if (class_label_wer_info) record(*class_label_wer_info);
        (class_label_wer_info ? class_label_wer_info : &global_wer_alignment)->tokens.push_back(make_pair(ilabel, DEL));
""")]),
('tally-del-loop','same','C01',F,[(DEL1,"""        for (wer_alignment *wa : {&global_wer_alignment, class_label_wer_info}) {
          if (wa == nullptr) continue;
          wa->deletions++;
          wa->numWordsInReference++;
          wa->ref_words.push_back(ilabel);
          wa->hyp_words.push_back(DEL);
          wa->del_words.push_back(ilabel);
        }
        if (class_label_wer_info != nullptr) {
          class_label_wer_info->tokens.push_back(make_pair(ilabel, DEL));
        } else {
          global_wer_alignment.tokens.push_back(make_pair(ilabel, DEL));
        }
""")]),
('tally-for','same','C01',F,[("  while (now != nullptr) {\n    const MyArc&","  for (; now != nullptr; now = now->linkToHere.get()) {\n    const MyArc&"),("      now = now->linkToHere.get();\n      continue;","      continue;"),("    now = now->linkToHere.get();\n  }\n\n  logger->info(\"approx","  }\n\n  logger->info(\"approx")]),
('tally-special','same','C01',F,[("    } else if (!isClassLabel_i && special_symbols.find(local_arc.ilabel) == special_symbols.end() &&\n               special_symbols.find(local_arc.olabel) == special_symbols.end()) {","    } else if (special_symbols.count(local_arc.ilabel) == 0) {")]),
('tally-special2','same','C01',F,[("  std::unordered_set<int> special_symbols =","  const std::set<int> special_symbols =")]),
('tally-order','same','C01',F,[("    if (local_arc.ilabel != local_arc.olabel) {\n      if (local_arc.ilabel == 0) {","    if (local_arc.ilabel != local_arc.olabel) {\n      const bool inserted = local_arc.ilabel == 0;\n      if (inserted) {")]),
('tally-curptr','same','C01',F,[("        global_wer_alignment.label_alignments.emplace_back();\n\n        class_label_wer_info = &global_wer_alignment.label_alignments.back();\n        class_label_wer_info->classLabel = ilabel;\n        global_wer_alignment.tokens.push_back(make_pair(ilabel, olabel));","        wer_alignment fresh{};\n        fresh.classLabel = ilabel;\n        global_wer_alignment.label_alignments.push_back(fresh);\n        class_label_wer_info = &global_wer_alignment.label_alignments.back();\n        global_wer_alignment.tokens.emplace_back(ilabel, olabel);")]),
('enq-early','same','C04',F,[("""  bool enqueue = false;
  auto found = logbook.find(target_state);
  if (found == logbook.end()) {
    // we couldn't find a shortlist entry in the logbook, we'll have to create
    // one
    enqueue = true;
  } else {
    float oldCost = found->second;

    // should that just be > instead of >= ?
    if (oldCost >= currentState->costSoFar + arc.weight) {
      enqueue = true;
      //   logbook.erase(found);
    }
  }

  if (!enqueue) {
    return enqueued;
  }
""","""  auto found = logbook.find(target_state);
  if (found != logbook.end() && found->second < currentState->costSoFar + arc.weight) {
    return nullptr;
  }
""")]),
('enq-helper','same','C04',F,[("""  bool enqueue = false;
  auto found = logbook.find(target_state);
  if (found == logbook.end()) {
    // we couldn't find a shortlist entry in the logbook, we'll have to create
    // one
    enqueue = true;
  } else {
    float oldCost = found->second;

    // should that just be > instead of >= ?
    if (oldCost >= currentState->costSoFar + arc.weight) {
      enqueue = true;
      //   logbook.erase(found);
    }
  }

  if (!enqueue) {
    return enqueued;
  }
""","""  if (!ShouldEnqueue(logbook, target_state, currentState->costSoFar + arc.weight)) {
    return enqueued;
  }
"""),("std::shared_ptr<ShortlistEntry> Walker::enqueueIfNeeded(","""template <typename M>
static bool ShouldEnqueue(const M &seen, int state, float cost) {
  auto it = seen.find(state);
  return it == seen.end() || it->second >= cost;
}

std::shared_ptr<ShortlistEntry> Walker::enqueueIfNeeded(""")]),
('enq-anchor','same','C04',F,[("""  if (!isAnchor) {
    enqueued->numWords = currentState->numWords + 1;
    enqueued->numErrors = currentState->numErrors;
    if (arcCost > 0) {
      enqueued->numErrors++;
      if (arc.ilabel == 0) {
        enqueued->numInsert++;
      }
    }
  } else {
    // since we are at an anchor word, we don't increase the error count
    enqueued->numWords = currentState->numWords;
  }
""","""  enqueued->numWords = currentState->numWords;
  if (!isAnchor) {
    enqueued->numWords += 1;
    const bool isError = arcCost > 0;
    enqueued->numErrors = currentState->numErrors + (isError ? 1 : 0);
    if (isError && arc.ilabel == 0) {
      ++enqueued->numInsert;
    }
  }
""")]),
('walk-range','same','C04',F,[("    for (vector<StdArc>::iterator iter = arcs_leaving_state.begin(); iter != arcs_leaving_state.end(); ++iter) {\n      const fst::StdArc arc = *iter;","    for (const fst::StdArc &arc : arcs_leaving_state) {")]),
('walk-index','same','C04',F,[("    for (vector<StdArc>::iterator iter = arcs_leaving_state.begin(); iter != arcs_leaving_state.end(); ++iter) {\n      const fst::StdArc arc = *iter;","    const size_t n_arcs = arcs_leaving_state.size();\n    for (size_t k = 0; k < n_arcs; ++k) {\n      const fst::StdArc &arc = arcs_leaving_state[k];")]),
('walk-makearc','same','C04',F,[("""      MyArc local_arc;
      local_arc.ilabel = arc.ilabel;
      local_arc.olabel = arc.olabel;
      local_arc.nextstate = arc.nextstate;
      local_arc.weight = arc.weight.Value();
""","      const MyArc local_arc = ToMyArc(arc);\n"),("vector<wer_alignment> Walker::walkComposed(","""static MyArc ToMyArc(const fst::StdArc &arc) {
  MyArc out;
  out.ilabel = arc.ilabel;
  out.olabel = arc.olabel;
  out.weight = arc.weight.Value();
  out.nextstate = arc.nextstate;
  return out;
}

vector<wer_alignment> Walker::walkComposed(""")]),
('walk-final','same','C04',F,[("    bool isFinal = fst.Final(s) != StdFst::Weight::Zero() ? true : false;\n    if (isFinal) {","    const bool isFinal = fst.Final(s) != StdFst::Weight::Zero();\n    if (isFinal) {")]),
('walk-swap','same','C04',F,[("    auto heapTmp = heapA;\n    heapA = heapB;\n    heapB = heapTmp;","    std::swap(heapA, heapB);")]),
('walk-prune','same','C04',F,[("    if (heapB->size() > 0) {\n      if (loopSinceLastPruning >= numberOfLoopsBeforePruning) {","    {\n      const bool due = loopSinceLastPruning >= numberOfLoopsBeforePruning;\n      if (due && heapB->size() > 0) {")]),
('walk-continue','same','C04',F,[("    if (heapA->size() > 0) {\n      // we still have some stuff to do with the current heap\n      continue;\n    }\n\n    if (heapB->size() > 0) {","    if (heapA->size() != 0) continue;\n\n    if (heapB->size() != 0) {")]),
('walk-emptytop','same','C04',F,[("  if (topEntries.size() > 0) {\n    int i = 0;\n    for (auto &top : topEntries) {\n      logger->info(\"getting details for candidate {}\", i);\n      // auto top = topEntries[0];\n      auto align = GetDetailsFromTopCandidates(top, symbol, options);\n      topAlignments.push_back(align);\n      i++;\n    }\n  }","  for (size_t i = 0; i < topEntries.size(); ++i) {\n    logger->info(\"getting details for candidate {}\", i);\n    topAlignments.push_back(GetDetailsFromTopCandidates(topEntries[i], symbol, options));\n  }")]),
('walk-firstentry','same','C04',F,[("  firstEntry->currentState = 0;\n  firstEntry->costSoFar = 0;\n  firstEntry->costToGoThere = 0;\n  firstEntry->whereTo = 0;\n  firstEntry->numErrors = 0;\n  firstEntry->numInsert = 0;\n  firstEntry->numWords = 0;\n  firstEntry->linkToHere = nullptr;\n","")]),
('heap-first','same','C04',P,[("  auto logbookIter = heap.begin();\n  auto currentState_ptr = *logbookIter;\n  heap.erase(logbookIter);\n  return currentState_ptr;","  auto first = *heap.begin();\n  heap.erase(heap.begin());\n  return first;")]),
('heap-best','same','C04',P,[("""  set<shared_ptr<ShortlistEntry>, shortlistComparatorSharedPtr>::iterator iter = heap.begin();

  shared_ptr<ShortlistEntry> best = nullptr;
  float bestWer = std::numeric_limits<float>::quiet_NaN();
  while (iter != heap.end()) {
    auto entry = *iter;
    float local_wer = (float)entry->numErrors / (float)entry->numWords;

    if (best == nullptr) {
      best = entry;
      bestWer = local_wer;
      continue;
    }

    if (local_wer < bestWer) {
      bestWer = local_wer;
      best = entry;
    }

    iter++;
  }
""","""  shared_ptr<ShortlistEntry> best = nullptr;
  float bestWer = std::numeric_limits<float>::quiet_NaN();
  for (const auto &entry : heap) {
    const float local_wer = (float)entry->numErrors / (float)entry->numWords;
    if (best == nullptr || local_wer < bestWer) {
      best = entry;
      bestWer = local_wer;
    }
  }
""")]),
('heap-eraseret','same','C04',P,[("      heap.erase(iter++);\n      pruned++;","      iter = heap.erase(iter);\n      ++pruned;")]),
('heap-last','same','C04',P,[("  auto last_wer_index = iter;\n  last_wer_index--;\n","  auto last_wer_index = std::prev(iter);\n")]),
('heap-advance','same','C04',P,[("    bool pruneMe = (*last_wer_index)->numErrors + 20 < (*iter)->numErrors;","    const int limit = (*last_wer_index)->numErrors + 20;\n    bool pruneMe = (*iter)->numErrors > limit;")]),
('heap-cmp','same','C04',"PathHeap.h",[("""    if (a->numWords == b->numWords) {
      if (a->numErrors == b->numErrors) {
        if (a->costSoFar == b->costSoFar) {
          return a->currentState < b->currentState;
        }

        return a->costSoFar < b->costSoFar;
      }

      return a->numErrors < b->numErrors;
    }

    return a->numWords < b->numWords;""","""    if (a->numWords != b->numWords) return a->numWords < b->numWords;
    if (a->numErrors != b->numErrors) return a->numErrors < b->numErrors;
    if (a->costSoFar != b->costSoFar) return a->costSoFar < b->costSoFar;
    return a->currentState < b->currentState;""")]),
('heap-tie','same','C04',"PathHeap.h",[("""    if (a->numWords == b->numWords) {
      if (a->numErrors == b->numErrors) {
        if (a->costSoFar == b->costSoFar) {
          return a->currentState < b->currentState;
        }

        return a->costSoFar < b->costSoFar;
      }

      return a->numErrors < b->numErrors;
    }

    return a->numWords < b->numWords;""","""    return std::tie(a->numWords, a->numErrors, a->costSoFar, a->currentState) <
           std::tie(b->numWords, b->numErrors, b->costSoFar, b->currentState);""")]),
('trav-loop','same','C08 C18',T,[("""    auto tk = root.tokens[currentPosInRoot];
    if (isEntityLabel(tk.first)) {""","""    const auto &tk = root.tokens[currentPosInRoot];
    const bool opensClass = isEntityLabel(tk.first);
    if (opensClass) {"""),("""      for (auto &a : root.label_alignments) {
        if (a.classLabel == tk.first) {
          currentSubclass = &a;
          break;
        }
      }""","""      for (size_t k = 0; k < root.label_alignments.size(); k++) {
        if (root.label_alignments[k].classLabel == tk.first) {
          currentSubclass = &root.label_alignments[k];
          break;
        }
      }""")]),
('trav-noelse','same','C08',T,[("""    return true;
  } else {
    currentPosInSubclass++;""","""    return true;
  }

  {
    currentPosInSubclass++;""")]),
('trav-helper','same','C08',T,[("""    auto tk = currentSubclass->tokens[currentPosInSubclass];
    triple.classLabel = currentSubclass->classLabel;
    triple.ref = tk.first;
    triple.hyp = tk.second;
    return true;""","""    const auto &[ref, hyp] = currentSubclass->tokens[currentPosInSubclass];
    triple.ref = ref;
    triple.hyp = hyp;
    triple.classLabel = currentSubclass->classLabel;
    return true;""")]),
('trav-invert','same','C08',T,[("""    if (currentPosInRoot >= root.tokens.size()) {
      return false;
    }
""","""    if (!(currentPosInRoot < root.tokens.size())) return false;
""")]),
('bug-insref','bug','C01',F,[("class_label_wer_info->ins_words.push_back(olabel);","class_label_wer_info->ins_words.push_back(ilabel);")]),
('bug-special','bug','C01',F,[("options.sub_idx,\n                                             options.oov_idx","options.sub_idx")]),
('bug-nest','bug','C01',F,[("      } else if (ilabel == class_label_wer_info->classLabel) {","      } else {")]),
('bug-enq','bug','C04',F,[("oldCost >= currentState->costSoFar + arc.weight","oldCost > currentState->costSoFar + arc.weight")]),
('bug-log','bug','C04',F,[("logbook[enqueued->currentState] = enqueued->costSoFar;","logbook[enqueued->currentState] = enqueued->costToGoThere;")]),
('bug-top','bug','C04',F,[("topEntries.size() < numBests","topEntries.size() <= numBests")]),
('bug-loops','bug','C04',F,[("        loopSinceLastPruning = 0;\n","")]),
('bug-prune','bug','C04',P,[("i < targetSz && i < sz","i <= targetSz && i < sz")]),
('bug-cmp','bug','C04',"PathHeap.h",[("return a->costSoFar < b->costSoFar;","return a->costSoFar > b->costSoFar;")]),
]
