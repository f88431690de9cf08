M='main.cpp'
C='    if (!Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs))'
V=[
 ('o2-neg','same','C21 C11 C25',M,[(C,'    const bool failed = !Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs);\n    if (failed)')]),
 ('o2-pos','same','C21 C11 C25',M,[(C,'    const bool parsed = Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs);\n    if (!parsed)')]),
 ('o2-negneg','same','C21 C11 C25',M,[(C,'    const bool failed = !Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs);\n    const bool fine = !failed;\n    if (!fine)')]),
 ('o2-and','same','C21 C25',M,[(C,'    const bool parsed = ifs.is_open() && Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs);\n    if (!parsed)')]),
 ('o2-asg','same','C21 C11 C25',M,[(C,'    bool failed;\n    failed = !Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs);\n    if (failed)')]),
 ('o2-eqf','same','C21 C11 C25',M,[(C,'    if (Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs) == false)')]),
 ('o2-bug','bug','C21',M,[(C,'    const bool failed = Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs);\n    if (failed)')]),
 ('o2-bug2','bug','C21',M,[(C,'    const bool failed = !Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs);\n    if (failed && !errs.empty() && wer_sidecar_obj.isNull())')]),
 ('o2-bug3','bug','C21',M,[(C,'    const bool failed = !(ifs.is_open() && Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs));\n    if (!failed)')]),
]
