// Stand-in for doc/md2html, whose library (nstools) is not part of the
// repository: md2html INPUT OUTPUT; fails like a converter does.
#include <fcntl.h>
#include <stdio.h>
#include <unistd.h>
static int put(int fd, const char *p, long n) { while (n > 0) { long r = write(fd, p, (unsigned long)n); if (r <= 0) return -1; p += r; n -= r; } return 0; }
int main(int c, char **v) {
  char b[65536]; long n;
  if (c != 3) return 2;
  int i = open(v[1], O_RDONLY), o = i < 0 ? -1 : open(v[2], O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (i < 0 || o < 0) { perror(v[1]); return 1; }
  if (put(o, "<div>\n", 6)) return 1;
  while ((n = read(i, b, sizeof b)) > 0) if (put(o, b, n)) return 1;
  if (n < 0 || put(o, "</div>\n", 7)) return 1;
  return close(o) != 0;
}
