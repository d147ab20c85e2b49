// Stand-in for clang-format: the last argument is the file, rewritten in place
// (trailing blanks go, runs of blank lines become one); fails as the tool does.
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
int main(int c, char **v) {
  if (c < 2) return 2;
  const char *f = v[c - 1];
  int i = open(f, O_RDONLY);
  if (i < 0) { perror(f); return 1; }
  size_t n = 0, cap = 1 << 16, o = 0, k;
  char *b = malloc(cap);
  for (long r;; n += (size_t)r) {
    if (n == cap) b = realloc(b, cap *= 2);
    r = read(i, b + n, cap - n);
    if (r < 0) { perror(f); return 1; }
    if (!r) break;
  }
  close(i);
  int blank = 0;
  for (k = 0; k < n;) {
    size_t e = k, t;
    while (e < n && b[e] != '\n') e++;
    for (t = e; t > k && (b[t - 1] == ' ' || b[t - 1] == '\t'); t--) {}
    if (t > k || !blank) {
      size_t j;
      blank = t == k;
      for (j = k; j < t; j++) b[o++] = b[j];
      if (e < n) b[o++] = '\n';
    }
    k = e + 1;
  }
  i = open(f, O_WRONLY | O_TRUNC);
  if (i < 0) { perror(f); return 1; }
  for (k = 0; k < o;) {
    long r = write(i, b + k, o - k);
    if (r <= 0) { perror(f); return 1; }
    k += (size_t)r;
  }
  return close(i) != 0;
}
