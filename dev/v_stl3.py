U='utilities.cpp'
G="""  string classlabel = string("___" + best_label + "___");
  std::replace(classlabel.begin(), classlabel.end(), ':', '_');
  return classlabel;
"""
V=[('g-for','same','C12',U,[(G,"""  for (char &c : best_label) {
    if (c == ':') c = '_';
  }
  return "___" + best_label + "___";
""")]),
('g-for2','same','C12',U,[(G,"""  string classlabel = string("___" + best_label + "___");
  for (size_t i = 0; i < classlabel.size(); i++) {
    if (classlabel[i] == ':') classlabel[i] = '_';
  }
  return classlabel;
""")]),
('g-tr','same','C12',U,[(G,"""  string classlabel = string("___" + best_label + "___");
  std::transform(classlabel.begin(), classlabel.end(), classlabel.begin(), [](char c) { return c == ':' ? '_' : c; });
  return classlabel;
""")]),
('g-ri','same','C12',U,[(G,"""  string classlabel = string("___" + best_label + "___");
  std::replace_if(classlabel.begin(), classlabel.end(), [](char c) { return c == ':'; }, '_');
  return classlabel;
""")]),
('g-app','same','C12',U,[(G,"""  string classlabel = "___";
  for (const char c : best_label) {
    classlabel += c == ':' ? '_' : c;
  }
  return classlabel + "___";
""")]),
('g-app2','same','C12',U,[(G,"""  string classlabel = "___";
  for (const char c : best_label) {
    classlabel.push_back(c == ':' ? '_' : c);
  }
  classlabel.append("___");
  return classlabel;
""")]),
('g-fe','same','C12',U,[(G,"""  std::for_each(best_label.begin(), best_label.end(), [](char &c) { if (c == ':') c = '_'; });
  return string("___").append(best_label).append("___");
""")]),
('g-bad','bug','C12',U,[(G,"""  for (size_t i = 1; i < best_label.size(); i++) {
    if (best_label[i] == ':') best_label[i] = '_';
  }
  return "___" + best_label + "___";
""")]),
('g-bad2','bug','C12',U,[(G,"""  for (size_t i = 0; i < best_label.size(); i++) {
    if (best_label[i] == ':') { best_label[i] = '_'; break; }
  }
  return "___" + best_label + "___";
""")]),
('g-bad3','bug','C12',U,[(G,"""  for (size_t i = 0; i + 1 < best_label.size(); i++) {
    if (best_label[i] == ':') { best_label[i] = '_'; }
  }
  return "___" + best_label + "___";
""")]),
('g-while','same','C12',U,[(G,"""  size_t at;
  while ((at = best_label.find(':')) != string::npos) {
    best_label[at] = '_';
  }
  return "___" + best_label + "___";
""")]),
('g-while2','same','C12',U,[(G,"""  string classlabel = string("___" + best_label + "___");
  for (size_t at = classlabel.find(':'); at != string::npos; at = classlabel.find(':', at + 1)) {
    classlabel[at] = '_';
  }
  return classlabel;
""")]),
]
