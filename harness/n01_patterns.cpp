// Replays spec/PatternsGen behaviours: layer selection by patterns, and frame sequences.
#include "f3d_common.h"
#include "PatternMatch.h"
#include "FileSequence.h"
static void sequence(const std::string& s, const J& names, int n) {
  if (names.size() == 1 && names[0].str() == "unspecified") { FileSequence q(s); ++g_cmp; return; }
  FileSequence q(s);
  expectEq(q.size(), names.size(), "files described by '" + s + "'");
  for (size_t i = 0; i < names.size(); ++i) { expectEq(q.filename(i), names[i].str(), "file " + std::to_string(i) + " of '" + s + "'"); expectEq(q.filenames()[i], names[i].str(), "list of '" + s + "'"); }
  // when a file by that very name exists, the sequence is that file
  if (s.find('/') == std::string::npos && !s.empty() && n % 2 == 0) {
    { std::ofstream f(s.c_str()); f << "x"; }
    { FileSequence e(s); expectEq(e.size(), size_t(1), "an existing file '" + s + "'"); expectEq(e.filename(0), s, "an existing file"); }
    unlink(s.c_str());
    FileSequence a(s); expectEq(a.size(), names.size(), "files described by '" + s + "' once it no longer exists");
  }
}
int main(int c, char** v) {
  return replayMain(c, v, [](const J& b) {
    const J& ls = b[0]["layers"]; std::vector<std::string> pats; std::string joined[3];
    for (size_t t = 1; t < b.size(); ++t) {
      const J& r = b[t]; g_ctx = "step " + std::to_string(t);
      if (r["n"].str() == "Sequence") { sequence(r["s"].str(), r["names"], t); continue; }
      if (pats.empty()) for (size_t i = 0; i < ls.size(); ++i) { std::string n = ls[i]["name"].str(), a = ls[i]["attr"].str();
        expectTrue(match(n, a, pats) && match(a, pats) && match(n, a, std::string()) && match(a, std::string("  ")), "an empty list selects everything");
        expectTrue(!match(n, a, pats, MatchNoFlags) && !match(a, pats, MatchNoFlags) && !match(n, a, std::string(), MatchNoFlags) && !match(a, std::string(), MatchNoFlags), "an empty list selects nothing when asked to"); }
      std::string p = r["p"].str(); pats.push_back(p);
      if (t % 4 == 0) pats.push_back("");                       // an empty entry has no effect
      joined[0] += (joined[0].empty() ? "" : " ") + p; joined[1] += "  " + p + " "; joined[2] = p + (joined[2].empty() ? "" : " ") + joined[2];
      for (size_t i = 0; i < ls.size(); ++i) {
        std::string n = ls[i]["name"].str(), a = ls[i]["attr"].str(); bool na = r["na"][i].b(), at = r["a"][i].b(); std::string w = " for " + n + ":" + a + " with {" + joined[0] + "}";
        expectEq(match(n, a, pats), na, "name and attribute, list" + w); expectEq(match(a, pats), at, "attribute, list" + w);
        expectEq(match(n, a, pats, MatchNoFlags), na, "name and attribute, list, no flags" + w);
        DenseFieldf::Ptr f(new DenseFieldf); f->name = n; f->attribute = a; expectEq(match(f.get(), pats), na, "field, list" + w);
        for (int q = 0; q < 3; ++q) { expectEq(match(n, a, joined[q]), na, "name and attribute, string" + w); expectEq(match(a, joined[q]), at, "attribute, string" + w); expectEq(match(f.get(), joined[q]), na, "field, string" + w); }
      }
    }
  });
}
