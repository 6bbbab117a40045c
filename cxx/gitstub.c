/* Stands in for git: hands its directory and arguments to the simulator and acts on the answer.
 * The socket lies beside the program. Answer: one byte 'X' (or 'W': warns on stderr first) + exit status byte + output, or 'K' + output (dies of SIGKILL after it). */
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <libgen.h>
int main(int argc, char **argv) {
  static char m[65536], r[65536];
  struct sockaddr_un a = {.sun_family = AF_UNIX};
  char self[512];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  if (n < 0) return 97;
  self[n] = 0;
  snprintf(a.sun_path, sizeof a.sun_path, "%s/s", dirname(self));
  int s = socket(AF_UNIX, SOCK_SEQPACKET, 0);
  if (connect(s, (struct sockaddr *)&a, sizeof a)) return 98;
  size_t k = 0;
  if (!getcwd(m, 4096)) return 96;
  k = strlen(m) + 1;
  for (int i = 1; i < argc; i++) { size_t l = strlen(argv[i]) + 1; if (k + l > sizeof m) return 95; memcpy(m + k, argv[i], l); k += l; }
  if (send(s, m, k, 0) < 0) return 94;
  n = recv(s, r, sizeof r, 0);
  if (n <= 0) return 93;
  if (r[0] == 'K') { if (n > 1 && write(1, r + 1, n - 1) < 0) {} kill(getpid(), SIGKILL); pause(); }
  if (r[0] == 'W') { static const char w[] = "warning: redirecting to https://git.example.org/\n"; if (write(2, w, sizeof w - 1) < 0) {} }
  size_t o = 2;
  while (o < (size_t)n) { ssize_t w = write(1, r + o, n - o); if (w <= 0) break; o += w; }
  return (unsigned char)r[1];
}
