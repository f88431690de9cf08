// Reference model of the fast edit-distance pass.
#include "spec.h"
#include "fast-d.h"
#include <algorithm>
namespace spec {
static int least(int a, int b, int c) {
  int m = a;
  if (b < m) m = b;
  if (c < m) m = c;
  return m;
}

int GetEditDistanceOnly(std::vector<int> &a, std::vector<int> &b) {
  int n = a.size(), m = b.size();
  if (n > m) return GetEditDistanceOnly(b, a);
  if (n == 0) return m;
  if (m == 0) return n;
  std::vector<int> row;
  for (int i = 0; i <= n; i++) row.push_back(i);
  for (int j = 0; j < m; j++) {
    int diag = row[0];
    row[0] = row[0] + 1;
    for (int i = 1; i <= n; i++) {
      int up = row[i];
      row[i] = a[i - 1] == b[j] ? diag : 1 + least(row[i - 1], up, diag);
      diag = up;
    }
  }
  return row[n];
}

int GetEditDistance(std::vector<int> &a, std::vector<int> &ma, std::vector<int> &b, std::vector<int> &mb) {
  int n = a.size(), m = b.size();
  if (n > m) return GetEditDistance(b, mb, a, ma);
  ma.resize(n, -1);
  mb.resize(m, -1);
  if (n == 0) return m;
  if (m == 0) return n;
  std::vector<std::vector<int>> rows;
  std::vector<int> row;
  for (int i = 0; i <= n; i++) row.push_back(i);
  std::vector<int> prev(n + 1);
  for (int j = 0; j < m; j++) {
    rows.push_back(row);
    prev = row;
    int diag = row[0];
    row[0] = row[0] + 1;
    for (int i = 1; i <= n; i++) {
      int up = row[i];
      row[i] = a[i - 1] == b[j] ? diag : 1 + least(row[i - 1], up, diag);
      diag = up;
    }
  }
  rows.push_back(row);
  int distance = row[n];
  int i = n, j = m;
  while (i > 0 && j >= 0) {
    int nw = prev[i - 1], north = prev[i], west = row[i - 1];
    int best = least(nw, north, west);
    if (best == nw) {
      if (a[i - 1] == b[j - 1]) {
        ma[i - 1] = 1;
        mb[j - 1] = 1;
      }
      i--;
      j--;
    } else if (best == west) {
      i--;
    } else {
      j--;
    }
    if (i < 0 || j == 0) break;
    for (int x = 0; x <= n; x++) row[x] = prev[x];
    for (int x = 0; x <= n; x++) prev[x] = rows[j - 1][x];
  }
  return distance;
}

int GetEditDistance(std::vector<int> &a, std::vector<int> &b) {
  std::vector<int> ma, mb;
  return GetEditDistance(a, ma, b, mb);
}

bool MapContainsErrorStreaks(std::vector<int> map, int cutoff) {
  int run = 0;
  for (size_t x = 0; x < map.size(); x++) {
    if (map[x] <= 0) {
      run++;
    } else {
      if (run > cutoff) return true;
      run = 0;
    }
  }
  return false;
}
}  // namespace spec
