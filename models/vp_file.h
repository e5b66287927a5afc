#pragma once
#include <cstddef>
// mode: 0 readable, 1 cannot be opened, 2 can be opened and not read
struct VpFile { const char* name; int mode; const char* data; size_t len, pos; };
void vp_file(VpFile*);
const char* vp_file_name(VpFile*);
int vp_files_open();
