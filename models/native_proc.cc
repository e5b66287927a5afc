// The same files for replays, in a scratch directory that is removed at once.
#include "vp_file.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
static std::string dir; static char path[300];
static void cleanup() { if (!dir.empty()) { unlink((dir + "/f").c_str()); rmdir((dir + "/f").c_str()); rmdir(dir.c_str()); dir.clear(); } }
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (d && readdir(d)) n++; if (d) closedir(d); return n; }
static int base;
void vp_file(VpFile* f) {
  cleanup(); if (!f) return;
  char t[] = "/tmp/vpfileXXXXXX"; if (!mkdtemp(t)) abort(); dir = t; snprintf(path, sizeof path, "%s/f", t);
  if (f->mode == 0) { FILE* o = fopen(path, "w"); fwrite(f->data, 1, f->len, o); fclose(o); }
  if (f->mode == 2) mkdir(path, 0700);
  f->name = path; base = fds();
}
const char* vp_file_name(VpFile* f) { return f->name; }
int vp_files_open() { int n = fds() - base; cleanup(); return n; }
