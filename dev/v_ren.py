def R(a,b,*fs): return [(a,b,f,1) for f in fs]
V=[
('ren-heap','same','C04','Walker.cpp',R('heapA','currentHeap','Walker.cpp','Walker.h')+R('heapB','nextHeap','Walker.cpp','Walker.h')),
('ren-log','same','C04 C01','Walker.cpp',R('logbook','bestCostByState','Walker.cpp','Walker.h')+R('GetDetailsFromTopCandidates','BuildAlignment','Walker.cpp','Walker.h')),
('ren-upd','same','C20 C06 C07','wer.cpp',R('UpdateHypCorrectAndAllwords','CountUnigrams','wer.cpp')),
('ren-seek','same','C13','SynonymEngine.cpp',R('SeekForward','FindRuleEnds','SynonymEngine.cpp')),
('ren-comp','same','C02','AdaptedComposition.cpp',R('composed_states','pair_to_state_','AdaptedComposition.cpp','AdaptedComposition.h')+R('GetOrCreateComposedState','ComposedStateFor','AdaptedComposition.cpp','AdaptedComposition.h')+R('IsEntityReacheable','CanReachLabel','AdaptedComposition.cpp','AdaptedComposition.h')),
('ren-stitch','same','C08 C19 C18 C23','fstalign.cpp',R('hyp_orig','originalHyp','fstalign.cpp','fstalign.h','wer.cpp')+R('make_stitches','MakeStitches','fstalign.cpp')),
('ren-nlp','same','C15 C10 C12 C19','Nlp.cpp',R('best_label_id','labelId','Nlp.cpp','Nlp.h','fstalign.cpp')+R('mJsonNorm','norm_','Nlp.cpp','Nlp.h','fstalign.cpp')),
('ren-trav','same','C08','AlignmentTraversor.cpp',R('currentPosInRoot','rootPos','AlignmentTraversor.cpp','AlignmentTraversor.h')+R('currentSubclass','group_','AlignmentTraversor.cpp','AlignmentTraversor.h')),
('ren-ctm','same','C10','Ctm.cpp',R('read_from_disk_with_conf','ReadSixColumns','Ctm.cpp')+R('read_from_disk_no_conf','ReadFiveColumns','Ctm.cpp')),
('ren-global','same','C12 C01 C08','utilities.cpp',R('TK_GLOBAL_CLASS','GLOBAL_CLASS_NAME','utilities.cpp','utilities.h','fstalign.cpp','wer.cpp','AlignmentTraversor.cpp')),
('ren-struct','same','C08 C18','AlignmentTraversor.cpp',R('triple','TokenTriple','AlignmentTraversor.cpp','AlignmentTraversor.h')+[('triple tk_pair','TokenTriple tk_pair','fstalign.cpp')]),
('ren-bug','bug','C13','SynonymEngine.cpp',R('SeekForward','FindRuleEnds','SynonymEngine.cpp')+[('''    if (arc.nextstate == stateId) {
      // if we're pointing to ourselves, let's ignore that
      continue;
    }

    int label_id = arc.ilabel;
    if (label_id''','''    int label_id = arc.ilabel;
    if (label_id''')]),
]
