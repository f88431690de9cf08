F='fast-d.cpp'
V=[
('min-std','same','C05',F,[("""  if (a < b) {
    if (a < c) {
      return a;
    } else {
      return c;
    }
  } else if (b < c) {
    return b;
  } else {
    return c;
  }""","  return std::min(a, std::min(b, c));")]),
('min-il','same','C05',F,[("""  if (a < b) {
    if (a < c) {
      return a;
    } else {
      return c;
    }
  } else if (b < c) {
    return b;
  } else {
    return c;
  }""","  return std::min({a, b, c});")]),
('min-tern','same','C05',F,[("""  if (a < b) {
    if (a < c) {
      return a;
    } else {
      return c;
    }
  } else if (b < c) {
    return b;
  } else {
    return c;
  }""","  int m = a <= b ? a : b;\n  return m <= c ? m : c;")]),
('copyback','same','C05',F,[("""    for (int x = 0; x <= lengthA; x++) {
      distance[x] = distancePrev[x];
    }
""","    std::copy(distancePrev, distancePrev + lengthA + 1, distance);\n")]),
('copyrow','same','C05',F,[("""      auto v = all_distances[seqB_track - 1];
      for (int j = 0; j <= lengthA; ++j) {
        distancePrev[j] = v[j];
      }""","""      const auto &v = all_distances[seqB_track - 1];
      int j = 0;
      while (j <= lengthA) {
        distancePrev[j] = v[j];
        j++;
      }""")]),
('vec','same','C05',F,[("  int distance[lengthA + 1];\n  int distancePrev[lengthA + 1];","  std::vector<int> distance(lengthA + 1);\n  std::vector<int> distancePrev(lengthA + 1);"),
 ("std::vector<int>(distance, distance + lengthA + 1)","distance",F,1),("std::copy(distance, distance + lengthA + 1, distancePrev);","distancePrev = distance;")]),
('streak-range','same','C05',F,[("""  for (int x = 0; x < map.size(); x++) {
    if (map[x] <= 0) {
      bad_match_seq_cnt++;
    } else if (bad_match_seq_cnt > streak_cutoff) {
      return true;
    } else {
      bad_match_seq_cnt = 0;
    }
  }""","""  for (const int m : map) {
    if (m < 1) {
      ++bad_match_seq_cnt;
      continue;
    }
    if (bad_match_seq_cnt > streak_cutoff) {
      return true;
    }
    bad_match_seq_cnt = 0;
  }""")]),
('iota','same','C05',F,[("""  int distance[lengthA + 1];
  for (int i = 0; i <= lengthA; ++i) {
    distance[i] = i;
  }

  for (int j = 1""","""  int distance[lengthA + 1];
  std::iota(distance, distance + lengthA + 1, 0);

  for (int j = 1"""),("#include <utility>","#include <utility>\n#include <numeric>")]),
('backtrace-le','same','C05',F,[("""    int min_path_score = min(nw, n, w);
    if (min_path_score == nw) {""","    if (nw <= n && nw <= w) {"),("else if (min_path_score == w)","else if (w <= n)")]),
('backtrace-switch','same','C05',F,[("if (current_pos < 0 || seqB_track == 0) {","if (seqB_track == 0 || current_pos < 0) {")]),
('match-local','same','C05',F,[("""      if (token_a == token_b) {
        // we have""","""      const bool same = token_a == token_b;
      is_match = same;
      if (same) {
        // we have""")]),
('jloop0','same','C05',F,[("""  for (int j = 1; j <= lengthB; ++j) {
    int prev_diag = distance[0], prev_diag_save;
    int dist_lenA""","""  for (int jj = 0; jj < lengthB; ++jj) {
    const int j = jj + 1;
    int prev_diag = distance[0], prev_diag_save;
    int dist_lenA""")]),
('rangeB','same','C05',F,[("""  for (int j = 1; j <= lengthB; ++j) {
    int prev_diag = distance[0], prev_diag_save;
    int dist_lenA""","""  for (int tok : seqB) {
    int prev_diag = distance[0], prev_diag_save;
    int dist_lenA"""),("""      if (seqA[i - 1] == seqB[j - 1]) {
        distance[i] = prev_diag;
      } else {
        distance[i] = min(distance[i - 1], distance[i], prev_diag) + 1;
      }
      prev_diag = prev_diag_save;
    }
  }

  return""","""      distance[i] = seqA[i - 1] == tok ? prev_diag : 1 + min(distance[i - 1], distance[i], prev_diag);
      prev_diag = prev_diag_save;
    }
  }

  return""")]),
('helper-row','same','C05',F,[("""    for (int i = 1; i <= lengthA; ++i) {
      prev_diag_save = distance[i];
      if (seqA[i - 1] == seqB[j - 1]) {
        distance[i] = prev_diag;
      } else {
        distance[i] = min(distance[i - 1], distance[i], prev_diag) + 1;
      }
      prev_diag = prev_diag_save;
    }
  }

  return""","""    UpdateRow(seqA, seqB[j - 1], distance, prev_diag);
  }

  return"""),("int GetEditDistanceOnly(std::vector<int> &seqA","""static void UpdateRow(const std::vector<int> &seqA, int token, int *distance, int prev_diag) {
  for (size_t i = 1; i <= seqA.size(); ++i) {
    int saved = distance[i];
    if (seqA[i - 1] == token) {
      distance[i] = prev_diag;
    } else {
      distance[i] = min(distance[i - 1], distance[i], prev_diag) + 1;
    }
    prev_diag = saved;
  }
}

int GetEditDistanceOnly(std::vector<int> &seqA""")]),
('bug-cutoff','bug','C05',F,[("bad_match_seq_cnt > streak_cutoff","bad_match_seq_cnt >= streak_cutoff")]),
('bug-tie','bug','C05',F,[("else if (min_path_score == w)","else if (min_path_score != n)")]),
('bug-diag','bug','C05',F,[("distance[i] = min(distance[i - 1], distance[i], prev_diag) + 1;","distance[i] = std::min(distance[i - 1], distance[i]) + 1;",F,1)]),
('bug-init','bug','C05',F,[("mapB.resize(seqB.size(), -1)","mapB.resize(seqB.size(), 0)")]),
('bug-row','bug','C05',F,[("all_distances[seqB_track - 1]","all_distances[seqB_track]")]),
('bug-reset','bug','C05',F,[("      bad_match_seq_cnt = 0;\n","")]),
]
