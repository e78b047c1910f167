// Forced into wav_reader.cc: opening and closing go through recorders.
#pragma once
#include <cerrno>
#include <cstdio>
FILE* vh_open(const char* name, const char* mode);
int vh_close(FILE* f);
namespace std {
inline FILE* vh_fopen(const char* n, const char* m) { return vh_open(n, m); }
inline int vh_fclose(FILE* f) { return vh_close(f); }
}
using std::vh_fopen;
using std::vh_fclose;
#define fopen vh_fopen
#define fclose vh_fclose
