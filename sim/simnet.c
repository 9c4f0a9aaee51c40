#include "sim.h"
void simnet_init (void) { }
int simnet_is (int fd) { return 0; }
ssize_t simnet_read (int fd, void *buf, size_t n, int flags, void *from, void *fromlen) { return -1; }
ssize_t simnet_write (int fd, const void *buf, size_t n, int flags, const void *to, int tolen) { return -1; }
int simnet_close (int fd) { return -1; }
int simnet_poll (int fd, int events) { return 0; }
int simnet_fcntl (int fd, int cmd, long arg) { return -1; }
