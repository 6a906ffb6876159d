/* Session driver over the public API of the R2U2 C monitor (r2u2.h).
 *
 * stdin is a list of sessions:
 *     S                       start a session (runs in a forked child, 8 fresh monitors)
 *     load K FILE             r2u2_load_specification on monitor K
 *     s K I STR               r2u2_load_string_signal(K, I, STR)
 *     b|i|f K I VALUE         r2u2_load_{bool,int,float}_signal
 *     step K                  r2u2_step(K)
 *     cb K 0|1                install a verdict callback (its lines start with ~) or remove it
 *     out K 0|1               write verdicts to the output file or not
 *     creset|sreset|hreset K  the three documented resets
 *     E                       end of session
 * stdout: for every `step K` a line "@K" followed by what the monitor wrote during that step,
 * for every load a line "!load K status", for every session a final line "=ok" or "=died N".
 */
#include "r2u2.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>

#define NMON 8
static r2u2_monitor_t mon[NMON] = {
  R2U2_DEFAULT_MONITOR, R2U2_DEFAULT_MONITOR, R2U2_DEFAULT_MONITOR, R2U2_DEFAULT_MONITOR,
  R2U2_DEFAULT_MONITOR, R2U2_DEFAULT_MONITOR, R2U2_DEFAULT_MONITOR, R2U2_DEFAULT_MONITOR };
static char line[65536], arg[4096];
static FILE *in;

static r2u2_status_t callback(r2u2_mltl_instruction_t instr, r2u2_verdict *v) {
  printf("~%u:%u,%s\n", (unsigned) instr.op2_value, (unsigned) get_verdict_time(*v), get_verdict_truth(*v) ? "T" : "F");
  return R2U2_OK;
}

static int load(int k, const char *path) {
  FILE *f = fopen(path, "rb");
  if (!f) { printf("!load %d nofile\n", k); return 1; }
  fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f);
  uint8_t *buf = calloc(1, (size_t)n + 4096);   /* the CLI maps whole zero-padded pages */
  if (fread(buf, 1, (size_t)n, f) != (size_t)n) { printf("!load %d short\n", k); fclose(f); return 1; }
  fclose(f);
  int st = (int) r2u2_load_specification(buf, &mon[k]);
  memset(buf, 0xA5, (size_t)n);                 /* the caller may drop its buffer after loading */
  free(buf);
  mon[k].out_file = stdout;
  printf("!load %d %d\n", k, st);
  return 0;
}

static void run(void) {
  int k; unsigned idx; char cmd[16];
  while (fgets(line, sizeof line, in)) {
    if (line[0] == 'E' && line[1] == '\n') break;
    if (sscanf(line, "%15s %d", cmd, &k) != 2 || k < 0 || k >= NMON) { printf("!bad %s", line); continue; }
    if (!strcmp(cmd, "load")) { if (sscanf(line, "%*s %*d %4095s", arg) == 1) load(k, arg); }
    else if (!strcmp(cmd, "step")) { printf("@%d\n", k); r2u2_step(&mon[k]); }
    else if (!strcmp(cmd, "cb")) mon[k].out_func = line[strlen(line) - 2] == '1' ? callback : NULL;
    else if (!strcmp(cmd, "out")) mon[k].out_file = line[strlen(line) - 2] == '1' ? stdout : NULL;
    else if (!strcmp(cmd, "creset")) r2u2_monitor_clock_reset(&mon[k]);
    else if (!strcmp(cmd, "sreset")) r2u2_monitor_soft_reset(&mon[k]);
    else if (!strcmp(cmd, "hreset")) r2u2_monitor_hard_reset(&mon[k]);
    else if (sscanf(line, "%*s %*d %u %4095s", &idx, arg) == 2) {
      if (cmd[0] == 's') r2u2_load_string_signal(&mon[k], idx, arg);
      else if (cmd[0] == 'b') r2u2_load_bool_signal(&mon[k], idx, atoi(arg) != 0);
      else if (cmd[0] == 'i') r2u2_load_int_signal(&mon[k], idx, atoi(arg));
      else if (cmd[0] == 'f') r2u2_load_float_signal(&mon[k], idx, atof(arg));
    } else printf("!bad %s", line);
  }
}

int main(int argc, char **argv) {
  unsigned limit = argc > 1 ? (unsigned) atoi(argv[1]) : 20;
  /* stdin must be a regular file: read it whole, hand each child its slice */
  struct stat st; fstat(0, &st);
  char *all = malloc((size_t)st.st_size + 1); size_t got = 0; ssize_t r;
  while ((r = read(0, all + got, (size_t)st.st_size - got)) > 0) got += (size_t)r;
  all[got] = 0;
  char *p = all;
  int stuck = 0;
  while ((p = strstr(p, "S\n"))) {
    char *q = strstr(p, "\nE\n");
    if (!q) break;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      /* a monitor that never ends, or never stops printing, must not take the machine with it */
      alarm(stuck < 4 ? limit : 1);
      off_t at = lseek(1, 0, SEEK_CUR);
      if (at >= 0) {
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t) at + 300000 + 40 * (rlim_t)(q - p);
        setrlimit(RLIMIT_FSIZE, &rl);
      }
      in = fmemopen(p + 2, (size_t)(q + 3 - (p + 2)), "r");
      run();
      fflush(stdout);
      _exit(0);
    }
    int w = 0; waitpid(pid, &w, 0);
    if (WIFSIGNALED(w)) stuck++;
    if (WIFEXITED(w) && WEXITSTATUS(w) == 0) printf("\n=ok\n");
    else printf("\n=died %d\n", WIFSIGNALED(w) ? WTERMSIG(w) : 1000 + WEXITSTATUS(w));
    p = q + 3;
  }
  return 0;
}
