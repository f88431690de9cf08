A='AdaptedComposition.cpp'
V=[
 ('k-cost-sub','bug','C02 C03','IComposition.h',[('substitution_cost = 1.5','substitution_cost = 2')]),
 ('k-cost-ins','bug','C02 C03','IComposition.h',[('insertion_cost = 1;','insertion_cost = 2;')]),
 ('k-label','bug','C02',A,[('sub_label_id_ = symbols.Find(options.symSub);','sub_label_id_ = symbols.Find(options.symDel);')]),
 ('k-swap','bug','C02',A,[(''', SymbolTable &symbols)
    : fstA_{fstA}, fstB_{fstB}''',''', SymbolTable &symbols)
    : fstA_{fstB}, fstB_{fstA}''')]),
 ('k-first','bug','C02','AdaptedComposition.h',[('current_composed_next_state_id = 0','current_composed_next_state_id = 1')]),
 ('k-deleg','same','C02',A,[(''', SymbolTable &symbols)
    : fstA_{fstA}, fstB_{fstB} {
  logger_ = logger::GetOrCreateLogger("AdaptedCompositionFst");
  logger_->set_level(spdlog::level::info);
#if TRACE
  logger_->set_level(spdlog::level::trace);
#endif
''',''', SymbolTable &symbols)
    : AdaptedCompositionFst(fstA, fstB) {
''')]),
]
