/* The same scripts as src/main.rs, executed by a C program. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void *schema_simple(const char *d, const char *m, uint8_t t, uint8_t e, uint8_t c);
void schema_free(void *s);
void *file_writer_new(const char *f, void *s);
void *file_writer_write_int32(void *w, const char *d, const char *m, int64_t t, int32_t v);
void file_writer_close(void *w);

#define MAX 64
static void *schemas[MAX], *writers[MAX];
static char *nd[MAX], *nm[MAX];

static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static char *str(const char *hex) {
  if (hex[0] == '!') return NULL;
  size_t n = (strlen(hex) - 1) / 2;
  char *p = malloc(n + 1);
  for (size_t i = 0; i < n; i++) p[i] = (char)(nib(hex[1 + 2 * i]) * 16 + nib(hex[2 + 2 * i]));
  p[n] = 0;
  return p;
}
static void del(char *p) {
  if (!p) return;
  memset(p, 0xA5, strlen(p) + 1);
  free(p);
}

int main(int argc, char **argv) {
  static char line[70000];
  char *tok[8];
  int n = 0;
  FILE *f = fopen(argv[1], "r");
  if (!f || argc < 2) return 2;
  while (fgets(line, sizeof line, f)) {
    int k = 0;
    for (char *p = strtok(line, " \n"); p && k < 8; p = strtok(NULL, " \n")) tok[k++] = p;
    if (!k) continue;
    int id = k > 1 ? atoi(tok[1]) : 0;
    switch (tok[0][0]) {
    case '=':
      printf("begin %s\n", tok[1]);
      fflush(stdout);
      n++;
      break;
    case 'S':
      nd[id] = str(tok[2]);
      nm[id] = str(tok[3]);
      schemas[id] = schema_simple(nd[id], nm[id], (uint8_t)atoi(tok[4]), (uint8_t)atoi(tok[5]), (uint8_t)atoi(tok[6]));
      break;
    case 'F': schema_free(schemas[id]); schemas[id] = NULL; break;
    case 'X': del(nd[id]); del(nm[id]); nd[id] = nm[id] = NULL; break;
    case 'N': {
      char *p = tok[3][0] == '!' ? NULL : strdup(tok[3]);
      writers[id] = file_writer_new(p, schemas[atoi(tok[2])]);
      del(p);
      break;
    }
    case 'W': {
      char *d = str(tok[2]), *m = str(tok[3]);
      writers[id] = file_writer_write_int32(writers[id], d, m, strtoll(tok[4], NULL, 10), (int32_t)strtol(tok[5], NULL, 10));
      del(d);
      del(m);
      break;
    }
    case 'C': file_writer_close(writers[id]); writers[id] = NULL; break;
    case 'f': schema_free(NULL); break;
    case 'c': file_writer_close(NULL); break;
    }
  }
  fclose(f);
  printf("done %d\n", n);
  return 0;
}
