# signatures that take several lines, or several places at once
A='C05 C06 C07 C11 C16 C17 C18 C23 C25'
F='fstalign.cpp'
MS=[('make_stitches(wer_alignment &alignment, vector<RawCtmRecord> hyp_ctm_rows = {},\n                                            vector<RawNlpRecord> hyp_nlp_rows = {},\n                                            vector<string> one_best_tokens = {},','make_stitches(wer_alignment &alignment, const vector<RawCtmRecord> &hyp_ctm_rows = {},\n                                            const vector<RawNlpRecord> &hyp_nlp_rows = {},\n                                            const vector<string> &one_best_tokens = {},')]
V=[
 ('sg-stitches','same',A+' C02 C08',F,MS),
 ('sg-stitches-anon','same',A,F,[('vector<Stitching> make_stitches(wer','static vector<Stitching> make_stitches(wer')]),
 ('sg-hw','same',A,F,[('               AlignerOptions alignerOptions, bool add_inserts_nlp, bool use_case) {','               const AlignerOptions &alignerOptions, bool add_inserts_nlp, bool use_case) {'),('               AlignerOptions alignerOptions, bool add_inserts_nlp = false','               const AlignerOptions &alignerOptions, bool add_inserts_nlp = false','fstalign.h')]),
 ('sg-ha','same',A,F,[('ofstream &output_nlp_file,\n                 AlignerOptions alignerOptions) {','ofstream &output_nlp_file,\n                 const AlignerOptions &alignerOptions) {'),('ofstream &output_nlp_file,\n                 AlignerOptions alignerOptions);','ofstream &output_nlp_file,\n                 const AlignerOptions &alignerOptions);','fstalign.h')]),
 ('sg-enq','same','C01 C04 C16 C17 C25','Walker.cpp',[('enqueueIfNeeded(std::shared_ptr<ShortlistEntry> currentState,','enqueueIfNeeded(const std::shared_ptr<ShortlistEntry> &currentState,'),('enqueueIfNeeded(std::shared_ptr<ShortlistEntry> currentStatePtr,','enqueueIfNeeded(const std::shared_ptr<ShortlistEntry> &currentStatePtr,','Walker.h')]),
 ('sg-walkopt','same','C01 C04 C16 C17 C25','Walker.cpp',[('Walker::walkComposed(IComposition &fst, SymbolTable &symbol, FstAlignOption &options,','Walker::walkComposed(IComposition &fst, SymbolTable &symbol, const FstAlignOption &options,'),('walkComposed(IComposition &fst, SymbolTable &symbol, FstAlignOption &options,','walkComposed(IComposition &fst, SymbolTable &symbol, const FstAlignOption &options,','Walker.h'),('SymbolTable &symbol,\n                                                              FstAlignOption &options','SymbolTable &symbol,\n                                                              const FstAlignOption &options'),('SymbolTable &symbol,\n                                                        FstAlignOption &options','SymbolTable &symbol,\n                                                        const FstAlignOption &options','Walker.h')]),
 ('sg-walksym','same','C01 C04 C16 C17 C25','Walker.cpp',[('SymbolTable &symbol, FstAlignOption &options,\n','const SymbolTable &symbol, FstAlignOption &options,\n'),('SymbolTable &symbol, FstAlignOption &options,\n','const SymbolTable &symbol, FstAlignOption &options,\n','Walker.h'),('GetDetailsFromTopCandidates(ShortlistEntry &currentState, SymbolTable &symbol','GetDetailsFromTopCandidates(const ShortlistEntry &currentState, const SymbolTable &symbol'),('GetDetailsFromTopCandidates(ShortlistEntry &currentState, SymbolTable &symbol','GetDetailsFromTopCandidates(const ShortlistEntry &currentState, const SymbolTable &symbol','Walker.h')]),
 ('sg-fastd','same','C05 C16 C17 C21 C25','fast-d.cpp',[('int GetEditDistance(std::vector<int> &seqA, std::vector<int> &seqB) {','int GetEditDistance(const std::vector<int> &seqA, const std::vector<int> &seqB) {'),('int GetEditDistance(std::vector<int> &seqA, std::vector<int> &mapA, std::vector<int> &seqB, std::vector<int> &mapB) {','int GetEditDistance(const std::vector<int> &seqA, std::vector<int> &mapA, const std::vector<int> &seqB, std::vector<int> &mapB) {'),('int GetEditDistanceOnly(std::vector<int> &seqA, std::vector<int> &seqB) {','int GetEditDistanceOnly(const std::vector<int> &seqA, const std::vector<int> &seqB) {'),
   ('int GetEditDistance(std::vector<int> &seqA, std::vector<int> &seqB);','int GetEditDistance(const std::vector<int> &seqA, const std::vector<int> &seqB);','fast-d.h'),('int GetEditDistance(std::vector<int> &seqA, std::vector<int> &mapA, std::vector<int> &seqB, std::vector<int> &mapB);','int GetEditDistance(const std::vector<int> &seqA, std::vector<int> &mapA, const std::vector<int> &seqB, std::vector<int> &mapB);','fast-d.h'),('int GetEditDistanceOnly(std::vector<int> &seqA, std::vector<int> &seqB);','int GetEditDistanceOnly(const std::vector<int> &seqA, const std::vector<int> &seqB);','fast-d.h')]),
 ('sg-minval','same','C05 C16 C25','fast-d.cpp',[('int min(int &a, int &b, int &c) {','int min(int a, int b, int c) {')]),
 ('sg-werconst','same','C07 C09 C11 C16 C25 C17','wer.cpp',[('int NumErrors() {','int NumErrors() const {','wer.h'),('float WER() {','float WER() const {','wer.h'),('void RecordWerResult(Json::Value &json, WerResult wr) {','void RecordWerResult(Json::Value &json, const WerResult &wr) {'),('void RecordWerResult(Json::Value &json, WerResult wr);','void RecordWerResult(Json::Value &json, const WerResult &wr);','wer.h')]),
 ('sg-upd','same','C06 C20 C16 C25','wer.cpp',[('void UpdateHypCorrectAndAllwords(wer_alignment &topAlignment,','static void UpdateHypCorrectAndAllwords(const wer_alignment &topAlignment,')]),
 ('sg-nlpctor','same','C15 C16 C17 C25','Nlp.cpp',[('NlpFstLoader::NlpFstLoader(std::vector<RawNlpRecord> &records, Json::Value normalization, Json::Value wer_sidecar,\n','NlpFstLoader::NlpFstLoader(const std::vector<RawNlpRecord> &records, const Json::Value &normalization, const Json::Value &wer_sidecar,\n'),('NlpFstLoader(std::vector<RawNlpRecord> &records, Json::Value normalization, Json::Value wer_sidecar, bool','NlpFstLoader(const std::vector<RawNlpRecord> &records, const Json::Value &normalization, const Json::Value &wer_sidecar, bool','Nlp.h')]),
 ('sg-nlpctor2','same','C15 C16 C17 C25','Nlp.cpp',[('NlpFstLoader::NlpFstLoader(std::vector<RawNlpRecord> &records, Json::Value normalization, Json::Value wer_sidecar,\n','NlpFstLoader::NlpFstLoader(std::vector<RawNlpRecord> &records, const Json::Value &normalization, const Json::Value &wer_sidecar,\n'),('NlpFstLoader(std::vector<RawNlpRecord> &records, Json::Value normalization, Json::Value wer_sidecar, bool','NlpFstLoader(std::vector<RawNlpRecord> &records, const Json::Value &normalization, const Json::Value &wer_sidecar, bool','Nlp.h')]),
 ('sg-alignval','same',A,F,[('bool sort_alignment(const wer_alignment &a, const wer_alignment &b)','static bool sort_alignment(const wer_alignment &a, const wer_alignment &b)')]),
 ('sg-groups','same','C18 C11 C16 C25','wer.cpp',[('void AddErrorGroup(ErrorGroups &groups, size_t &line,','void AddErrorGroup(ErrorGroups &groups, const size_t &line,'),('void AddErrorGroup(ErrorGroups &groups, size_t &line,','void AddErrorGroup(ErrorGroups &groups, const size_t &line,','wer.h')]),
 ('sg-groups2','same','C18 C11 C16 C25','wer.cpp',[('void AddErrorGroup(ErrorGroups &groups, size_t &line,','void AddErrorGroup(ErrorGroups &groups, size_t line,'),('void AddErrorGroup(ErrorGroups &groups, size_t &line,','void AddErrorGroup(ErrorGroups &groups, size_t line,','wer.h')]),
]
V+=[
 ('sg-entval','same','C02 C03 C12 C15','utilities.cpp',[('bool isEntityLabel(const string &token)','bool isEntityLabel(string token)'),('bool isEntityLabel(const string &token)','bool isEntityLabel(string token)','utilities.h')]),
]
V=[v for v in V if v[0]!='sg-groups2']
