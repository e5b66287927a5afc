// Files as a harness provides them: one text per file, or a failure to open or to read it.
#include "sym.h"
#include "vp_file.h"
#include <cstdio>
static VpFile* cur; static int opened;
void vp_file(VpFile* f) { cur = f; }
const char* vp_file_name(VpFile* f) { return f->name; }
int vp_files_open() { return opened; }
struct Handle { VpFile* f; size_t pos; };
extern "C" {
int open(const char* n, int, ...) { if (!cur || cur->mode == 1) return -1; opened++; cur->pos = 0; return 7; }
int close(int fd) { if (fd != 7 || opened <= 0) sym_fail("close of something that is not open"); opened--; return 0; }
long read(int fd, void* p, size_t n) {
  if (fd != 7) sym_fail("read from something that is not open");
  if (cur->mode == 2) return -1;
  size_t left = cur->len - cur->pos, k = n < left ? n : left; memcpy(p, cur->data + cur->pos, k); cur->pos += k; return (long)k;
}
FILE* fopen(const char*, const char*) { if (!cur || cur->mode == 1) return nullptr; opened++; cur->pos = 0; return (FILE*)cur; }
int fclose(FILE* f) { if (f != (FILE*)cur || opened <= 0) sym_fail("fclose of something that is not open"); opened--; return 0; }
void setbuffer(FILE*, char* b, size_t n) { if (b && n) { b[0] = 0; b[n - 1] = 0; } }
char* fgets(char* s, int n, FILE* f) {
  VpFile* v = (VpFile*)f;
  if (n <= 0 || v->mode == 2) return nullptr;
  int k = 0; while (k < n - 1 && v->pos < v->len) { char c = v->data[v->pos++]; s[k++] = c; if (c == '\n') break; }
  if (k == 0) return nullptr;
  s[k] = 0; return s;
}
}
