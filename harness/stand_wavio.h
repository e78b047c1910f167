// Forced into wav_writer.cc: its file operations go through recorders.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <list>
#include <string>
#include <vector>
FILE* vh_open(const char* name, const char* mode);
int vh_close(FILE* f);
size_t vh_write(const void* p, size_t size, size_t n, FILE* f);
int vh_seek(FILE* f, long at, int from);
int vh_remove(const char* name);
namespace std {
inline FILE* vh_fopen(const char* n, const char* m) { return vh_open(n, m); }
inline int vh_fclose(FILE* f) { return vh_close(f); }
inline size_t vh_fwrite(const void* p, size_t s, size_t n, FILE* f) { return vh_write(p, s, n, f); }
inline int vh_fseek(FILE* f, long at, int from) { return vh_seek(f, at, from); }
inline int vh_unlink(const char* n) { return vh_remove(n); }
}
using std::vh_fopen;
using std::vh_fclose;
using std::vh_fwrite;
using std::vh_fseek;
using std::vh_unlink;
#define fopen vh_fopen
#define fclose vh_fclose
#define fwrite vh_fwrite
#define fseek vh_fseek
#define remove vh_unlink
