// File-system calls of the database layer: no file exists.
#include <cstdlib>
#include <cerrno>
#include <cstdio>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
char* realpath(const char*, char*) { errno = ENOENT; return nullptr; }
int stat(const char*, struct stat*) { errno = ENOENT; return -1; }
int lstat(const char*, struct stat*) { errno = ENOENT; return -1; }
int access(const char*, int) { errno = ENOENT; return -1; }
FILE* fopen(const char*, const char*) { errno = ENOENT; return nullptr; }
}
