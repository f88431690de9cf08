// From NLP rows to the reference tokens, their speakers, the expanded alternatives and the reference graph.
#include "spec.h"
#include "Nlp.h"
namespace spec {
struct NlpFstLoader_ : FstLoader {
  std::vector<RawNlpRecord> mNlpRows;
  std::vector<std::string> mSpeakers;
  Json::Value mJsonNorm;
  Json::Value mWerSidecar;
  bool mUseCase;

  const std::string &getToken(int index) const { return mToken.at(index); }
  NlpFstLoader_(std::vector<RawNlpRecord> &records, Json::Value norm, Json::Value sidecar, bool labels, bool use_punctuation, bool use_case) {
    mJsonNorm = norm;
    mWerSidecar = sidecar;
    mUseCase = use_case;
    for (size_t i = 0; i < records.size(); i++) {
      RawNlpRecord &row = records[i];
      // tags are named after the sidecar
      if (mWerSidecar != Json::nullValue)
        for (size_t k = 0; k < row.wer_tags.size(); k++) row.wer_tags[k].entity_type = mWerSidecar[row.wer_tags[k].tag_id]["entity_type"].asString();
      mNlpRows.push_back(row);

      if (labels && row.best_label != "") {
        bool begins = i == 0 || records[i - 1].best_label != row.best_label;
        if (begins) {
          // one token stands for the whole run of rows with this label ...
          std::string name = "___" + row.best_label + "___";
          std::replace(name.begin(), name.end(), ':', '_');
          mToken.push_back(name);
          mSpeakers.push_back(row.speakerId);
          // ... and the words of the run become one more way to say it
          if (mJsonNorm != Json::nullValue) {
            Json::Value words, way;
            words.append(row.token);
            way["verbalization"] = words;
            way["probability"] = 0.0f;
            mJsonNorm[row.best_label_id]["candidates"].append(way);
          }
        } else {
          int last = (int)mJsonNorm[row.best_label_id]["candidates"].size() - 1;
          mJsonNorm[row.best_label_id]["candidates"][last]["verbalization"].append(row.token);
        }
      } else {
        mToken.push_back(use_case ? row.token : UnicodeLowercase(row.token));
        mSpeakers.push_back(row.speakerId);
      }

      if (use_punctuation && row.punctuation != "") {
        mToken.push_back(row.punctuation);
        mSpeakers.push_back(row.speakerId);
        RawNlpRecord p;
        p.speakerId = row.speakerId;
        mNlpRows.push_back(p);
      }
    }
  }

  std::string cased(const std::string &w) const { return mUseCase ? w : UnicodeLowercase(w); }

  void addToSymbolTable(fst::SymbolTable &symbol) const {
    for (size_t i = 0; i < mToken.size(); i++) {
      const std::string &tk = mToken[i];
      if (isEntityLabel(tk)) {
        FstLoader::AddSymbolIfNeeded(symbol, tk);
        std::string id = getLabelIdFromToken(tk);
        if (mJsonNorm != Json::nullValue) {
          Json::Value ways = mJsonNorm[id]["candidates"];
          for (Json::Value::ArrayIndex k = 0; k < ways.size(); k++) {
            Json::Value words = ways[k]["verbalization"];
            for (auto w : words) FstLoader::AddSymbolIfNeeded(symbol, cased(w.asString()));
          }
        }
        continue;
      }
      std::string word = tk;
      if (tk.find("<") == 0 && tk.find(">") == tk.size() - 1) {
        // <foreign:fr> is registered as <foreign>
        size_t colon = tk.find(":");
        if (colon != std::string::npos) word = tk.substr(0, colon) + ">";
      }
      FstLoader::AddSymbolIfNeeded(symbol, word);
    }
  }

  std::vector<int> convertToIntVector(fst::SymbolTable &symbol) const {
    addToSymbolTable(symbol);
    std::vector<int> ids;
    for (size_t i = 0; i < mToken.size(); i++) {
      int id = symbol.Find(mToken[i]);
      ids.push_back(id == -1 ? symbol.Find("<unk>") : id);
    }
    return ids;
  }

  int known(const fst::SymbolTable &symbol, const std::string &w) const {
    int id = symbol.Find(w);
    return id == -1 ? symbol.Find("<unk>") : id;
  }

  fst::StdVectorFst convertToFst(const fst::SymbolTable &symbol, std::vector<int> map) const {
    fst::StdVectorFst g;
    int eps = symbol.Find("<eps>");
    if (eps == -1) eps = 0;
    g.AddState();
    g.SetStart(0);
    int at = 0, fresh = 1;
    for (int i = 0; i < (int)mToken.size(); i++) {
      const std::string &token = mToken[i];
      int id = known(symbol, token);
      int to = fresh;
      g.AddState();
      float w = 0;
      if (i < (int)map.size() && map[i] > 0) w = 1;
      g.AddArc(at, fst::StdArc(id, id, w, to));
      at = to;
      fresh = to + 1;
      if (!isEntityLabel(token)) continue;
      // label, one path per candidate, label again
      int join = to + 1, out = to + 2;
      g.AddState();
      g.AddState();
      g.AddArc(join, fst::StdArc(id, id, 0, out));
      fresh = to + 3;
      std::string lid = getLabelIdFromToken(token);
      Json::Value ways = mJsonNorm[lid]["candidates"];
      for (Json::Value::ArrayIndex k = 0; k < ways.size(); k++) {
        int p = to;
        Json::Value words = ways[k]["verbalization"];
        for (auto word : words) {
          int wid = known(symbol, cased(word.asString()));
          g.AddState();
          g.AddArc(p, fst::StdArc(wid, wid, 0, fresh));
          p = fresh++;
        }
        g.AddArc(p, fst::StdArc(eps, eps, 0, join));
      }
      at = out;
    }
    int end = g.AddState();
    g.AddArc(at, fst::StdArc(eps, eps, 0, end));
    g.SetFinal(end, 0);
    return g;
  }

  int GetProperSymbolId(const fst::SymbolTable &symbol, std::string token, std::string unk) const {
    int id = symbol.Find(token);
    if (id != -1) return id;
    if (token.find("<") == 0 && token.find(">") == token.size() - 1) {
      size_t colon = token.find(":");
      if (colon != std::string::npos) return symbol.Find(token.substr(0, colon) + ">");
    }
    return symbol.Find(unk);
  }
};
}  // namespace spec
