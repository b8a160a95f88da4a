// Stands in for ./primesum in runs of the batch script: records the arguments and the
// work file, then ends as planned.
// Environment: WT_LOG (record file), WT_PLAN (outcomes, one per run, separated by commas),
// WT_SUPPORT (text listed by --help).
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static FILE* out;
static void quoted(const char* s, size_t n)
{
  fputc('"', out);
  for (size_t i = 0; i < n; i++)
  {
    unsigned char c = s[i];
    if (c == '"' || c == '\\' || c < 32 || c > 126) fprintf(out, "\\u%04x", c);
    else fputc(c, out);
  }
  fputc('"', out);
}
static void file(const char* key)
{
  static char buf[1 << 16];
  FILE* f = fopen("worktodo.txt", "r");
  size_t n = f ? fread(buf, 1, sizeof buf, f) : 0;
  if (f) fclose(f);
  fprintf(out, ",\"%s\":[", key);
  size_t i = 0;
  int first = 1;
  while (i < n)
  {
    size_t e = i;
    while (e < n && buf[e] != '\n') e++;
    if (!first) fputc(',', out);
    first = 0;
    quoted(buf + i, e - i);
    i = e + 1;
  }
  fprintf(out, "]");
}

int main(int argc, char** argv)
{
  unsetenv("LD_PRELOAD");
  if (argc == 2 && (!strcmp(argv[1], "--help") || !strcmp(argv[1], "-h")))
  {
    printf("Usage: primesum x [OPTION]...\nOptions:\n%s", getenv("WT_SUPPORT"));
    return 0;
  }
  const char* log = getenv("WT_LOG");
  // number of runs so far
  long k = 0;
  FILE* f = fopen(log, "r");
  if (f) { int c; while ((c = fgetc(f)) != EOF) k += c == '\n'; fclose(f); }
  char plan[4096], what[64] = "ok";
  strncpy(plan, getenv("WT_PLAN"), sizeof plan - 1);
  char* t = strtok(plan, ",");
  for (long i = 0; t && i <= k; i++, t = strtok(0, ",")) if (i == k) strncpy(what, t, sizeof what - 1);
  out = fopen(log, "a");
  // one record per run: written whole, before and after
  fprintf(out, "{\"op\":\"run\",\"a\":[");
  for (int i = 1; i < argc; i++) { if (i > 1) fputc(',', out); quoted(argv[i], strlen(argv[i])); }
  fprintf(out, "]");
  file("file");
  int sig = 0, whom = 0;   // whom: 0 self, 1 script, 2 everybody
  int rc = 0, late = 0;
  if (sscanf(what, "exit%d", &rc) == 1) ;
  else if (sscanf(what, "self%d", &sig) == 1) whom = 0;
  else if (sscanf(what, "script%d", &sig) == 1) whom = 1;
  else if (sscanf(what, "all%d", &sig) == 1) whom = 2;
  else if (sscanf(what, "late%d", &sig) == 1) { whom = 1; late = 1; }
  int dies = sig && whom != 1;
  fprintf(out, ",\"r\":\"%s\",\"e\":\"\"}\n", dies || rc ? "failed" : "ok");
  fflush(out);
  fclose(out);
  if (sig)
  {
    // the script leads the session of its own in which it was started
    if (whom == 0) kill(getpid(), sig);
    else if (whom == 1) { kill(getsid(0), sig); usleep(late ? 30000 : 0); }
    else kill(0, sig);
    if (whom != 1) { signal(sig, SIG_DFL); raise(sig); kill(getpid(), SIGKILL); }
  }
  return rc;
}
