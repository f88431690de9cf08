"""C21: files that cannot be opened or read"""
O = 'OneBestFstLoader.cpp'
S = 'SynonymEngine.cpp'
M = 'main.cpp'
CHK = '  if (!stream.is_open()) throw std::runtime_error("Cannot open input file");\n'
SCHK = '  if (!input.is_open()) throw std::runtime_error("Cannot open input file");\n'
JS = '''    ofstream jsonFile;
    jsonFile.open(output_json_log);
    if (!jsonFile.is_open()) {
      console->error("cannot open {} for writing", output_json_log);
      return 1;
    }
'''
RJ = '''    if (!Json::parseFromStream(builder, ifs, &obj, &errs)) {
      throw std::runtime_error("Cannot read json norm file: " + errs);
    }
'''
V = [
 # ---- same
 ('o-not', 'same', 'C21 C10', O, [(CHK, '  if (!stream) throw std::runtime_error("Cannot open input file");\n')]),
 ('o-fail', 'same', 'C21 C10', O, [(CHK, '  if (stream.fail()) {\n    throw std::runtime_error("Cannot open input file");\n  }\n')]),
 ('o-good', 'same', 'C21 C10', O, [(CHK, '  if (stream.good() == false) throw std::runtime_error("Cannot open input file");\n')]),
 ('o-flag', 'same', 'C21 C10', O, [(CHK, '  const bool ok = stream.is_open();\n  if (!ok) throw std::runtime_error("Cannot open input file");\n')]),
 ('o-nest', 'same', 'C21 C10', O, [('  if (!stream.is_open()) throw std::runtime_error("Cannot open input file");\n\n  std::copy(std::istream_iterator<std::string>(stream), std::istream_iterator<std::string>(),\n            std::back_inserter(mToken));\n\n  stream.close();',
   '  if (stream.is_open()) {\n    std::copy(std::istream_iterator<std::string>(stream), std::istream_iterator<std::string>(), std::back_inserter(mToken));\n    stream.close();\n  } else {\n    throw std::runtime_error("Cannot open input file");\n  }')]),
 ('o-helper', 'same', 'C21 C10', O, [('void OneBestFstLoader::LoadTextFile', 'static void must_be_open(const std::ifstream &in) {\n  if (!in.is_open()) throw std::runtime_error("Cannot open input file");\n}\n\nvoid OneBestFstLoader::LoadTextFile'), (CHK, '  must_be_open(stream);\n')]),
 ('o-helper-bool', 'same', 'C21 C10', O, [('void OneBestFstLoader::LoadTextFile', 'static bool opened(const std::ifstream &in) { return in.is_open(); }\n\nvoid OneBestFstLoader::LoadTextFile'), (CHK, '  if (!opened(stream)) throw std::runtime_error("Cannot open input file");\n')]),
 ('o-helper-bool2', 'same', 'C21 C10', O, [('void OneBestFstLoader::LoadTextFile', 'static bool opened(const std::ifstream &in) {\n  if (!in.is_open()) return false;\n  return true;\n}\n\nvoid OneBestFstLoader::LoadTextFile'), (CHK, '  if (!opened(stream)) throw std::runtime_error("Cannot open input file");\n')]),
 ('o-helper-ret', 'same', 'C21 C10', O, [('void OneBestFstLoader::LoadTextFile', 'static std::ifstream open_text(const std::string &name) {\n  std::ifstream in(name);\n  if (!in.is_open()) throw std::runtime_error("Cannot open input file");\n  return in;\n}\n\nvoid OneBestFstLoader::LoadTextFile'), ('  std::ifstream stream(filename);\n\n' + CHK, '  std::ifstream stream = open_text(filename);\n')]),
 ('o-die', 'same', 'C21 C10', O, [('void OneBestFstLoader::LoadTextFile', 'static void die() { throw std::runtime_error("Cannot open input file"); }\n\nvoid OneBestFstLoader::LoadTextFile'), (CHK, '  if (!stream.is_open()) die();\n')]),
 ('o-open-later', 'same', 'C21 C10', O, [('  std::ifstream stream(filename);\n', '  std::ifstream stream;\n  stream.open(filename);\n')]),
 ('o-exc', 'same', 'C21', O, [('  std::ifstream stream(filename);\n\n' + CHK, '  std::ifstream stream;\n  stream.exceptions(std::ifstream::failbit);\n  stream.open(filename);\n  stream.exceptions(std::ifstream::goodbit);\n')]),
 ('o-json-helper', 'same', 'C21 C11', M, [('int main(', 'static bool write_report(const string &path) {\n  ofstream out(path);\n  if (!out.is_open()) return false;\n  out << jsonLogger::JsonLogger::getLogger().root << std::endl;\n  return true;\n}\n\nint main('),
   (JS + '    jsonFile << jsonLogger::JsonLogger::getLogger().root << std::endl;\n    jsonFile.close();', '    if (!write_report(output_json_log)) {\n      console->error("cannot open {} for writing", output_json_log);\n      return 1;\n    }')]),
 ('o-rc', 'same', 'C21 C11', M, [(JS + '    jsonFile << jsonLogger::JsonLogger::getLogger().root << std::endl;\n    jsonFile.close();', '    ofstream jsonFile(output_json_log);\n    if (jsonFile.is_open()) {\n      jsonFile << jsonLogger::JsonLogger::getLogger().root << std::endl;\n      jsonFile.close();\n    } else {\n      console->error("cannot open {} for writing", output_json_log);\n      return 1;\n    }')]),
 ('o-parse-flag', 'same', 'C21 C11', M, [(RJ, '    const bool parsed = Json::parseFromStream(builder, ifs, &obj, &errs);\n    if (!parsed) {\n      throw std::runtime_error("Cannot read json norm file: " + errs);\n    }\n')]),
 ('o-parse-open', 'same', 'C21', M, [(RJ, '    if (!ifs.is_open()) throw std::runtime_error("Cannot open " + json_norm_filename);\n' + RJ)]),
 ('o-fst-raw', 'same', 'C21 C14', 'FstFileLoader.cpp', [('  std::unique_ptr<fst::StdVectorFst> transducer(fst::StdVectorFst::Read(filename_));\n  if (transducer == nullptr)', '  fst::StdVectorFst *transducer = fst::StdVectorFst::Read(filename_);\n  if (!transducer)')]),
 ('o-fst-then', 'same', 'C21 C14', 'FstFileLoader.cpp', [('  if (transducer == nullptr) throw std::runtime_error("Cannot read input fst");\n\n  logger->info("Total FST has {} states.", transducer->NumStates());\n  return (*transducer);', '  if (transducer) {\n    logger->info("Total FST has {} states.", transducer->NumStates());\n    return (*transducer);\n  }\n  throw std::runtime_error("Cannot read input fst");')]),
 ('o-lambda', 'same', 'C21 C10', O, [(CHK, '  const auto check = [&stream]() {\n    if (!stream.is_open()) throw std::runtime_error("Cannot open input file");\n  };\n  check();\n')]),
 ('o-try', 'same', 'C21', M, [('    auto vec = nlpReader.read_from_disk(ref_filename);\n', '    std::vector<RawNlpRecord> vec;\n    try {\n      vec = nlpReader.read_from_disk(ref_filename);\n    } catch (const std::exception &e) {\n      console->error("cannot read {}: {}", ref_filename, e.what());\n      throw;\n    }\n')]),
 ('o-trymain', 'same', 'C21', M, [('  if (synonyms_filename.size() > 0) {\n    engine.LoadFile(synonyms_filename);\n  }', '  if (synonyms_filename.size() > 0) {\n    try {\n      engine.LoadFile(synonyms_filename);\n    } catch (const std::exception &e) {\n      console->error("{}", e.what());\n      return 1;\n    }\n  }')]),
 ('o-lines', 'same', 'C21 C12', S, [('  vector<string> lines;\n  string s;\n  while (std::getline(input, s)) {\n    lines.push_back(s);\n  }\n  input.close();', '  vector<string> lines;\n  for (string s; std::getline(input, s);) {\n    lines.push_back(s);\n  }\n  input.close();')]),
 ('o-empty-ctm', 'same', 'C21 C10', 'Ctm.cpp', [('    vector<RawCtmRecord> vect;\n    return vect;\n  }\n\n  int sz', '    return vector<RawCtmRecord>();\n  }\n\n  int sz')]),
 # ---- bugs
 ('o-b-drop', 'bug', 'C21', O, [(CHK, '')]),
 ('o-b-log', 'bug', 'C21', O, [(CHK, '  if (!stream.is_open()) {\n    logger::GetOrCreateLogger("OneBestFstLoader")->error("Cannot open input file");\n  }\n')]),
 ('o-b-ret', 'bug', 'C21', O, [(CHK, '  if (!stream.is_open()) return;\n')]),
 ('o-b-syn', 'bug', 'C21', S, [(SCHK, '  if (!input.is_open()) {\n    logger_->error("no rules");\n    return;\n  }\n')]),
 ('o-b-late', 'bug', 'C21', S, [(SCHK, ''), ('  input.close();\n', '  input.close();\n' + '  if (lines.empty()) throw std::runtime_error("Cannot open input file");\n')]),
 ('o-b-swallow', 'bug', 'C21', M, [('    engine.LoadFile(synonyms_filename);\n', '    try {\n      engine.LoadFile(synonyms_filename);\n    } catch (const std::exception &e) {\n      console->error("{}", e.what());\n    }\n')]),
 ('o-b-swallow-nlp', 'bug', 'C21', 'Nlp.cpp', [('  std::vector<RawNlpRecord> vect;\n  io::CSVReader', '  std::vector<RawNlpRecord> vect;\n  try {\n  io::CSVReader'), ('    vect.push_back(record);\n  }\n\n  return vect;\n}\n\nstd::string NlpReader::GetLabelId', '    vect.push_back(record);\n  }\n  } catch (...) {\n  }\n\n  return vect;\n}\n\nstd::string NlpReader::GetLabelId')]),
 ('o-b-and', 'bug', 'C21', O, [(CHK, '  if (!stream.is_open() && filename.empty()) throw std::runtime_error("Cannot open input file");\n')]),
 ('o-b-inv', 'bug', 'C21', O, [(CHK, '  if (stream.is_open()) throw std::runtime_error("Cannot open input file");\n')]),
 ('o-b-rc0', 'bug', 'C21', M, [('      console->error("cannot open {} for writing", output_json_log);\n      return 1;', '      console->error("cannot open {} for writing", output_json_log);\n      return 0;')]),
 ('o-b-parse', 'bug', 'C21', M, [(RJ, '    if (!Json::parseFromStream(builder, ifs, &obj, &errs)) {\n      console->warn("{}", errs);\n    }\n')]),
 ('o-b-fst', 'bug', 'C21', 'FstFileLoader.cpp', [('  if (transducer == nullptr) throw std::runtime_error("Cannot read input fst");\n', '  if (transducer == nullptr) return fst::StdVectorFst();\n')]),
 ('o-b-helper', 'bug', 'C21', O, [('void OneBestFstLoader::LoadTextFile', 'static bool opened(const std::ifstream &in) {\n  if (!in.is_open()) return false;\n  return true;\n}\n\nvoid OneBestFstLoader::LoadTextFile'), (CHK, '  opened(stream);\n')]),
]
