// In-process model of pipes: byte counts only, one wait channel. A poll whose timeout is VP_FOREVER or more never times out, so that a lost wakeup shows as a deadlock.
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
extern "C" {
int vp_block(const void*); int vp_block_timed(const void*); void vp_wake(const void*, uint64_t); void vp_sched(); void vp_fail(const char*);
static struct { int type, peer, bytes; bool nonblock; } P[32]; static int np = 3; static char chan;
int pipe(int* fd) { fd[0] = np; fd[1] = np + 1; P[np] = {1, np + 1, 0, false}; P[np + 1] = {2, np, 0, false}; np += 2; return 0; }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); int v = va_arg(ap, int); va_end(ap); if (cmd == F_SETFL) P[fd].nonblock = v & O_NONBLOCK; return cmd == F_GETFL ? (P[fd].nonblock ? O_NONBLOCK : 0) : 0; }
int close(int fd) { P[fd].type = 0; return 0; }
ssize_t read(int fd, void* b, size_t n) { vp_sched(); if (P[fd].type != 1) { errno = EBADF; return -1; } while (!P[fd].bytes) { if (P[fd].nonblock) { errno = EWOULDBLOCK; return -1; } vp_block(&chan); } size_t k = (size_t)P[fd].bytes < n ? P[fd].bytes : n; for (size_t i = 0; i < k; i++) ((char*)b)[i] = 'A'; P[fd].bytes -= k; return k; }
ssize_t write(int fd, const void*, size_t n) { vp_sched(); if (fd <= 2) return n; if (P[fd].type != 2) { errno = EBADF; return -1; } P[P[fd].peer].bytes += n; vp_wake(&chan, ~0ull); return n; }
int poll(struct pollfd* f, nfds_t n, int ms) { vp_sched(); for (;;) { int r = 0; for (nfds_t i = 0; i < n; i++) { f[i].revents = 0; int fd = f[i].fd; if (fd < 0) continue; if (P[fd].type == 1 && P[fd].bytes) f[i].revents |= POLLIN & f[i].events; if (P[fd].type == 0) f[i].revents |= POLLNVAL; if (f[i].revents) r++; } if (r || !ms) return r; if (ms >= 1000000 || ms < 0) vp_block(&chan); else if (vp_block_timed(&chan)) return 0; } }
}
