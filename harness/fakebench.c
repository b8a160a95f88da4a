// Stands in for ./primesum in runs of the tuning script: records the factors it is run
// with and prints what the program prints, with planned times and factors.
// Environment: FB_LOG (record file), FB_TIME and FB_STATUS (the program's own output, with
// @S for seconds, @A for the factor, @T for threads), FB_PLAN (file: one line per exponent
// "alpha c base t1 t2 ...", thousandths; c > 0: times grow with the distance from c, else the
// times in turn, the last one again and again), FB_FROM (first exponent), FB_THREADS.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static const char* value(int argc, char** argv, const char* brief, const char* full)
{
  for (int i = 1; i < argc; i++)
  {
    size_t b = strlen(brief), f = strlen(full);
    if (!strncmp(argv[i], full, f) && argv[i][f] == '=') return argv[i] + f + 1;
    if (!strncmp(argv[i], brief, b) && argv[i][1] != '-' && argv[i][b])
      return argv[i] + b + (argv[i][b] == '=');
  }
  return 0;
}
static int has(int argc, char** argv, const char* a)
{
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], a)) return 1;
  return 0;
}
// exponent of a power of 10
static int exponent(const char* s)
{
  int n, k = 0;
  if (sscanf(s, "1e%d%n", &n, &k) == 1 && !s[k]) return n;
  if (sscanf(s, "10^%d%n", &n, &k) == 1 && !s[k]) return n;
  if (sscanf(s, "10**%d%n", &n, &k) == 1 && !s[k]) return n;
  if (*s == '1') { n = strspn(s + 1, "0"); if (!s[1 + n]) return n; }
  return -1;
}
static long milli(const char* s)
{
  char* e;
  double d = strtod(s, &e);
  if (e == s || *e || !(d > -1e6 && d < 1e6)) return -1;
  return (long) (d * 1000 + (d < 0 ? -0.5 : 0.5));
}
static void show(const char* t, long a, const char* threads, long ms)
{
  for (; *t; t++)
  {
    if (*t != '@') { putchar(*t); continue; }
    t++;
    if (*t == 'A') printf("%ld.%03ld", a / 1000, a % 1000);
    else if (*t == 'T') printf("%s", threads);
    else if (*t == 'S') printf("%ld.%03ld", ms / 1000, ms % 1000);
  }
}

int main(int argc, char** argv)
{
  const char* own = getenv("FB_THREADS");
  const char* threads = value(argc, argv, "-t", "--threads");
  const char* alpha = value(argc, argv, "-a", "--alpha");
  int n = -1;
  for (int i = 1; i < argc && n < 0; i++) if (*argv[i] != '-') n = exponent(argv[i]);
  FILE* f;
  // the plan
  static char line[1 << 16];
  long own_a = 1000, c = 0, base = 0;
  char* times = "";
  if ((f = fopen(getenv("FB_PLAN"), "r")))
  {
    int i = atoi(getenv("FB_FROM")), k = 0, found = 0;
    while (!found && fgets(line, sizeof line, f)) found = i++ == n;
    fclose(f);
    if (found) { sscanf(line, "%ld %ld %ld%n", &own_a, &c, &base, &k); times = line + k; }
  }
  if (!has(argc, argv, "--time"))
  {
    show(getenv(has(argc, argv, "-s") || has(argc, argv, "--status") ? "FB_STATUS" : "FB_TIME"), alpha ? milli(alpha) : own_a, threads ? threads : own, 0);
    return 0;
  }
  // number of runs so far with this n
  long k = 0, ms = 0;
  char key[64], buf[512];
  snprintf(key, sizeof key, "\"n\":%d,", n);
  if ((f = fopen(getenv("FB_LOG"), "r"))) { while (fgets(buf, sizeof buf, f)) k += strstr(buf, key) != 0; fclose(f); }
  long a = alpha ? milli(alpha) : own_a;
  if (c > 0) ms = base + labs(a - c);
  else
    for (char* t = strtok(times, " \n"); t && k >= 0; t = strtok(0, " \n"), k--) ms = atol(t);
  f = fopen(getenv("FB_LOG"), "a");
  int other = has(argc, argv, "--S2_trivial") || has(argc, argv, "--S1") || has(argc, argv, "--P2");
  fprintf(f, "{\"op\":\"time\",\"n\":%d,\"threads\":\"%.20s\",\"a\":%ld,\"ms\":%ld}\n", other ? -1 : n, threads ? threads : own, a, ms);
  fclose(f);
  show(getenv("FB_TIME"), a, threads ? threads : own, ms);
  return 0;
}
