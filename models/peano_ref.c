/* Reference Peano-Hilbert keys: the algorithm of Gadget-2 (peano.c), with 64 bit keys.
   Kept in /verif so that it does not change with /repo. */
typedef long long key_t64;
static const signed char quadrants[24][2][2][2] = {
  {{{0, 7}, {1, 6}}, {{3, 4}, {2, 5}}}, {{{7, 4}, {6, 5}}, {{0, 3}, {1, 2}}},
  {{{4, 3}, {5, 2}}, {{7, 0}, {6, 1}}}, {{{3, 0}, {2, 1}}, {{4, 7}, {5, 6}}},
  {{{1, 0}, {6, 7}}, {{2, 3}, {5, 4}}}, {{{0, 3}, {7, 4}}, {{1, 2}, {6, 5}}},
  {{{3, 2}, {4, 5}}, {{0, 1}, {7, 6}}}, {{{2, 1}, {5, 6}}, {{3, 0}, {4, 7}}},
  {{{6, 1}, {7, 0}}, {{5, 2}, {4, 3}}}, {{{1, 2}, {0, 3}}, {{6, 5}, {7, 4}}},
  {{{2, 5}, {3, 4}}, {{1, 6}, {0, 7}}}, {{{5, 6}, {4, 7}}, {{2, 1}, {3, 0}}},
  {{{7, 6}, {0, 1}}, {{4, 5}, {3, 2}}}, {{{6, 5}, {1, 2}}, {{7, 4}, {0, 3}}},
  {{{5, 4}, {2, 3}}, {{6, 7}, {1, 0}}}, {{{4, 7}, {3, 0}}, {{5, 6}, {2, 1}}},
  {{{6, 7}, {5, 4}}, {{1, 0}, {2, 3}}}, {{{7, 0}, {4, 3}}, {{6, 1}, {5, 2}}},
  {{{0, 1}, {3, 2}}, {{7, 6}, {4, 5}}}, {{{1, 6}, {2, 5}}, {{0, 7}, {3, 4}}},
  {{{2, 3}, {1, 0}}, {{5, 4}, {6, 7}}}, {{{3, 4}, {0, 7}}, {{2, 5}, {1, 6}}},
  {{{4, 5}, {7, 6}}, {{3, 2}, {0, 1}}}, {{{5, 2}, {6, 1}}, {{4, 3}, {7, 0}}}};
static const signed char rotx_map[24] = {4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0, 1, 2, 3, 17, 18, 19, 16, 23, 20, 21, 22};
static const signed char roty_map[24] = {1, 2, 3, 0, 16, 17, 18, 19, 11, 8, 9, 10, 22, 23, 20, 21, 14, 15, 12, 13, 4, 5, 6, 7};
static const signed char rotx_of[8] = {3, 0, 0, 2, 2, 0, 0, 1}, roty_of[8] = {0, 1, 1, 2, 2, 3, 3, 0};
static const signed char sense_of[8] = {-1, -1, -1, 1, 1, -1, -1, -1};

void ref_keys(long long n, const long long *x, const long long *y, const long long *z, int bits, long long *out)
{
  for (long long p = 0; p < n; p++) {
    int rot = 0, sense = 1;
    key_t64 key = 0;
    for (int b = bits - 1; b >= 0; b--) {
      int q = quadrants[rot][(x[p] >> b) & 1][(y[p] >> b) & 1][(z[p] >> b) & 1];
      key = key * 8 + (sense == 1 ? q : 7 - q);
      sense *= sense_of[q];
      for (int i = 0; i < rotx_of[q]; i++) rot = rotx_map[rot];
      for (int i = 0; i < roty_of[q]; i++) rot = roty_map[rot];
    }
    out[p] = key;
  }
}
