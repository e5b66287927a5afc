// HARNESS(name) { body }: one entry point, usable symbolically and natively.
#pragma once
#include "../models/sym.h"
#ifdef VP_NATIVE
#include <map>
#include <string>
std::map<std::string, void (*)()>& vp_entries();
#define HARNESS(n) extern "C" void n(); static struct reg_##n { reg_##n() { vp_entries()[#n] = n; } } regi_##n; extern "C" void n()
#else
#define HARNESS(n) extern "C" void n()
#endif
