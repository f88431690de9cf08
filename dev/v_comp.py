F='AdaptedComposition.cpp'
S='StandardComposition.cpp'
V=[
('exist-direct','same','C02',F,[("""  auto itr = reversed_composed_states.find(a);
  if (itr == reversed_composed_states.end()) {
    return false;
  } else {
    return true;
  }""","  return reversed_composed_states.find(a) != reversed_composed_states.end();")]),
('exist-count','same','C02',F,[("""  StatePair tuple = make_pair(a, b);
  auto itr = composed_states.find(tuple);
  if (itr == composed_states.end()) {
    return false;
  } else {
    return true;
  }""","  return composed_states.count(make_pair(a, b)) > 0;")]),
('goc-early','same','C02',F,[("""  if (itr == composed_states.end()) {
    if (TRACE) {
      logger_->trace("pair {},{} not found", a, b);
    }
    // the key was not found, let's insert a new state
    // composed_states[tuple] = current_composed_next_state_id++;
    StateId new_state_id = current_composed_next_state_id++;
    composed_states.emplace(state_pair, new_state_id);
    reversed_composed_states.emplace(new_state_id, state_pair);
    if (TRACE) {
      logger_->trace("returning new state {}", new_state_id);
    }

    return new_state_id;
  } else {
    auto ret = itr->second;
    if (TRACE) {
      logger_->trace("returning existing state {}", ret);
    }
    return ret;
  }""","""  if (itr != composed_states.end()) {
    return itr->second;
  }
  const StateId new_state_id = current_composed_next_state_id;
  ++current_composed_next_state_id;
  composed_states[state_pair] = new_state_id;
  reversed_composed_states[new_state_id] = state_pair;
  return new_state_id;""")]),
('goc-insert','same','C02',F,[("""    composed_states.emplace(state_pair, new_state_id);
    reversed_composed_states.emplace(new_state_id, state_pair);""","""    composed_states.insert({state_pair, new_state_id});
    reversed_composed_states.insert(std::make_pair(new_state_id, state_pair));""")]),
('final-tern','same','C02',F,[("""  if (fstA_is_final && fstB_is_final) {
    return fst::Fst<fst::StdArc>::Weight::One();
  }

  return fst::Fst<fst::StdArc>::Weight::Zero();""","""  const bool both = fstA_is_final && fstB_is_final;
  return both ? fst::Fst<fst::StdArc>::Weight::One() : fst::Fst<fst::StdArc>::Weight::Zero();""")]),
('final-helper','same','C02',F,[("  bool fstA_is_final = (fstA_.Final(refA) != fst::Fst<fst::StdArc>::Weight::Zero());\n  bool fstB_is_final = (fstB_.Final(refB) != fst::Fst<fst::StdArc>::Weight::Zero());\n\n  if (fstA_is_final && fstB_is_final) {","  if (IsFinalState(fstA_, refA) && IsFinalState(fstB_, refB)) {"),
  ("fst::Fst<fst::StdArc>::Weight AdaptedCompositionFst::Final(","static bool IsFinalState(const fst::StdFst &g, StateId s) {\n  return g.Final(s) != fst::Fst<fst::StdArc>::Weight::Zero();\n}\n\nfst::Fst<fst::StdArc>::Weight AdaptedCompositionFst::Final(")]),
('reach-merge','same','C02',F,[("""      bool does_this_reach_the_end = IsEntityReacheable(target_entity_label_id, arcA.nextstate, refB);
      if (does_this_reach_the_end) {
        return true;
      }

      continue;""","""      if (IsEntityReacheable(target_entity_label_id, arcA.nextstate, refB)) return true;
      continue;""")]),
('reach-cond','same','C02',F,[("""      if (arcA.olabel == arcB.ilabel) {
        bool does_this_reach_the_end = IsEntityReacheable(target_entity_label_id, arcA.nextstate, arcB.nextstate);
        if (does_this_reach_the_end) {
          return true;
        }
      }""","""      if (arcA.olabel != arcB.ilabel) continue;
      if (IsEntityReacheable(target_entity_label_id, arcA.nextstate, arcB.nextstate)) {
        return true;
      }""")]),
('arcs-addhelper','same','C02',F,[("""        StateId c = GetOrCreateComposedState(arcA.nextstate, arcB.nextstate);
""","""        const StateId c = GetOrCreateComposedState(arcA.nextstate, arcB.nextstate);
"""),("        out_vector->push_back(StdArc(arcA.ilabel, arcB.olabel, 0.0, c));","        out_vector->emplace_back(arcA.ilabel, arcB.olabel, 0.0, c);")]),
('arcs-lambda','same','C02',F,[("  int num_match = 0;\n  int num_entity = 0;\n","  int num_match = 0;\n  int num_entity = 0;\n  auto add = [&](int in, int out, float w, StateId a, StateId b) { out_vector->push_back(StdArc(in, out, w, GetOrCreateComposedState(a, b))); };\n"),
 ("""        StateId ins_state_ref_id = GetOrCreateComposedState(refA, arcB.nextstate);
#if TRACE
        logger_->trace("{}/{} >] adding ins/{}/{}", dbg_count, here_snap, arcB.olabel, symbols_->Find(arcB.olabel));
#endif
        out_vector->push_back(StdArc(0, arcB.olabel, insertion_cost, ins_state_ref_id));""","        add(0, arcB.olabel, insertion_cost, refA, arcB.nextstate);"),
 ("""      StateId del_state_ref_id = GetOrCreateComposedState(arcA.nextstate, refB);
      out_vector->push_back(StdArc(arcA.ilabel, 0, deletion_cost, del_state_ref_id));""","      add(arcA.ilabel, 0, deletion_cost, arcA.nextstate, refB);")]),
('arcs-hoist','same','C02',F,[("      float weightB = arcB.weight.Value();\n      bool arcs_matched = false;","      const float weightB = arcB.weight.Value();\n      const bool insertable = weightB <= 0;\n      bool arcs_matched = false;"),("      if (weightB <= 0) {\n        // B can","      if (insertable) {\n        // B can"),("if (weightA <= 0 && weightB <= 0) {","if (insertable && weightA <= 0) {")]),
('arcs-insmerge','same','C02',F,[("""      arc_added++;
      float weightB = arcB.weight.Value();
      if (weightB > 0) {
        continue;
      }
""","""      arc_added++;
      if (arcB.weight.Value() > 0) continue;
""")]),
('arcs-entity','same','C02',F,[("    bool is_entity = is_synonym || IsEntityLabel(arcA.olabel);\n","    bool is_entity = is_synonym ? true : IsEntityLabel(arcA.olabel);\n")]),
('arcs-exitcount','same','C02',F,[("entity_exit_states.find(make_pair(refA, (int)arcA.olabel)) != entity_exit_states.end();","entity_exit_states.count(make_pair(refA, (int)arcA.olabel)) != 0;")]),
('arcs-reachable','same','C02',F,[("      if (is_exit_state || !is_synonym || IsEntityReacheable(arcA.olabel, arcA.nextstate, refB)) {","      bool allowed = is_exit_state || !is_synonym;\n      if (!allowed) {\n        allowed = IsEntityReacheable(arcA.olabel, arcA.nextstate, refB);\n      }\n      if (allowed) {")]),
('arcs-pairref','same','C02',F,[("  auto ref_state_pair = reversed_composed_states[fromStateId];\n  StateId refA = ref_state_pair.first;\n  StateId refB = ref_state_pair.second;\n\n  // this is very","  const StatePair ref_state_pair = reversed_composed_states.at(fromStateId);\n  const StateId refA = ref_state_pair.first;\n  const StateId refB = ref_state_pair.second;\n\n  // this is very")]),
('arcs-tie','same','C02',F,[("  auto ref_state_pair = reversed_composed_states[fromStateId];\n  StateId refA = ref_state_pair.first;\n  StateId refB = ref_state_pair.second;\n\n  // this is very","  auto found = reversed_composed_states.find(fromStateId);\n  StateId refA = found->second.first;\n  StateId refB = found->second.second;\n\n  // this is very")]),
('arcs-while','same','C02',F,[("  for (ArcIterator<StdFst> aiter(fstA_, refA); !aiter.Done(); aiter.Next()) {\n    const fst::StdArc &arcA = aiter.Value();\n\n#if TRACE\n    logger_->trace(\"{}/{} >] arcA","  ArcIterator<StdFst> aiter(fstA_, refA);\n  for (; !aiter.Done(); aiter.Next()) {\n    const fst::StdArc &arcA = aiter.Value();\n\n#if TRACE\n    logger_->trace(\"{}/{} >] arcA")]),
('sym-elseif','same','C02',F,[("""    } else {
      // will mark it as entity only if it isn't a synonym
      if (isEntityLabel(sym_tk)) {
        entity_label_ids[sid] = true;
      }
    }""","""    } else if (isEntityLabel(sym_tk)) {
      entity_label_ids[sid] = true;
    }""")]),
('sym-assign','same','C02',F,[("""  synonyms_label_ids.clear();
  synonyms_label_ids.resize(symbols->AvailableKey(), false);

  entity_label_ids.clear();
  entity_label_ids.resize(symbols->AvailableKey(), false);
""","""  const auto table_size = symbols->AvailableKey();
  synonyms_label_ids.assign(table_size, false);
  entity_label_ids.assign(table_size, false);
""")]),
('std-helper','same','C03',S,[("""  halfEdit1.SetInputSymbols(symbols_);
  halfEdit1.SetOutputSymbols(symbols_);
  halfEdit1.AddState();
  halfEdit1.SetStart(0);
  halfEdit1.SetFinal(0, 0);
""","  InitFlower(&halfEdit1, symbols_);\n"),("""  halfEdit2.SetInputSymbols(symbols_);
  halfEdit2.SetOutputSymbols(symbols_);
  halfEdit2.AddState();
  halfEdit2.SetStart(0);
  halfEdit2.SetFinal(0, 0);
""","  InitFlower(&halfEdit2, symbols_);\n"),("StandardCompositionFst::StandardCompositionFst(","""static void InitFlower(StdVectorFst *g, SymbolTable *symbols) {
  g->SetInputSymbols(symbols);
  g->SetOutputSymbols(symbols);
  g->AddState();
  g->SetStart(0);
  g->SetFinal(0, 0);
}

StandardCompositionFst::StandardCompositionFst(""")]),
('std-skip','same','C03',S,[("    if (sid != 0 && sid != ins_label_id_ && sid != del_label_id_ && sid != sub_label_id_) {","    const bool reserved = sid == 0 || sid == ins_label_id_ || sid == del_label_id_ || sid == sub_label_id_;\n    if (!reserved) {")]),
('std-continue','same','C03',S,[("    if (sid != 0 && sid != ins_label_id_ && sid != del_label_id_ && sid != sub_label_id_) {","    if (sid == 0 || sid == ins_label_id_ || sid == del_label_id_ || sid == sub_label_id_) continue;\n    {")]),
('std-common','same','C03',S,[("        halfEdit1.AddArc(0, StdArc(sid, sid, 0, 0));\n        // setting","        // setting"),("        halfEdit1.AddArc(0, StdArc(sid, sid, 0, 0));\n        halfEdit1.AddArc(0, StdArc(sid, sub_label_id_","        halfEdit1.AddArc(0, StdArc(sid, sub_label_id_"),("      bool isClassLabel = isEntityLabel(sym_tk);\n","      bool isClassLabel = isEntityLabel(sym_tk);\n      halfEdit1.AddArc(0, StdArc(sid, sid, 0, 0));\n")]),
('std-loop12','same','C03',S,[("        halfEdit2.AddArc(0, StdArc(sid, sid, 0, 0));\n        halfEdit2.AddArc(0, StdArc(sub_label_id_","        const auto subCost = substitution_cost / 2;\n        halfEdit2.AddArc(0, StdArc(sid, sid, 0, 0));\n        halfEdit2.AddArc(0, StdArc(sub_label_id_"),("StdArc(sub_label_id_, sid, substitution_cost / 2, 0)","StdArc(sub_label_id_, sid, subCost, 0)")]),
('std-arcs','same','C03',S,[("    const fst::StdArc &arc = aiter.Value();\n    out_vector->push_back(arc);","    out_vector->push_back(aiter.Value());")]),
('bug-reach','bug','C02',F,[("IsEntityReacheable(target_entity_label_id, arcA.nextstate, arcB.nextstate)","IsEntityReacheable(target_entity_label_id, arcA.nextstate, refB)")]),
('bug-exit','bug','C02',F,[("entity_exit_states.emplace(refA, target_entity_label_id);","entity_exit_states.emplace(refB, target_entity_label_id);")]),
('bug-del','bug','C02',F,[("if (num_match == 0 || weightA < 0) {","if (num_match == 0 || weightA <= 0) {")]),
('bug-ins','bug','C02',F,[("      if (weightB > 0) {\n        continue;","      if (weightB >= 0) {\n        continue;")]),
('bug-std','bug','C03',S,[("StdArc(sub_label_id_, sid, substitution_cost / 2, 0)","StdArc(sub_label_id_, sid, insertion_cost / 2, 0)")]),
('bug-det','bug','C03',S,[("Compose(detRefFst, halfEdit1, &halfCompose1)","Compose(fstA, halfEdit1, &halfCompose1)")]),
]
