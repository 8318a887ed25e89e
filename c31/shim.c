// Preloaded into the command line tool: emulates one serial port, the motors on it and the clock.
//
// DXL_PORT: the path that is the emulated port.  DXL_SCRIPT: what the motors do after each instruction, separated by ';':
// "delay_us:HEX,delay_us:HEX". DXL_LOG: a file that gets one line per event. DXL_FAULT: a call that fails, as in "write=5".
#define _GNU_SOURCE
#include <asm/termbits.h>
#include <asm/ioctls.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#define TCGETS2_ 0x802C542A
#define TCSETS2_ 0x402C542B
#define TCSETSW2_ 0x402C542C
#define TCSETSF2_ 0x402C542D

static int port = -1, logfd = -1, inited;
static uint64_t now = 7000000000000ull;
static struct termios2 termios;
static unsigned char rx[1 << 20], tx[1 << 18];
static size_t rx_head, rx_tail, tx_len;
static struct { uint64_t at; unsigned char *data; size_t len; } future[4096];
static size_t n_future, i_future;
static char *script;
static char fault_name[32];
static int fault_errno, fault_after;

static void say(const char *fmt, ...) {
	char b[400];
	va_list a;
	va_start(a, fmt);
	int n = vsnprintf(b, sizeof b, fmt, a);
	va_end(a);
	if (logfd >= 0) syscall(SYS_write, logfd, b, n);
}
static void init(void) {
	if (inited) return;
	inited = 1;
	char *l = getenv("DXL_LOG");
	if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
	script = getenv("DXL_SCRIPT");
	if (script && *script == '@') {
		int f = syscall(SYS_openat, AT_FDCWD, script + 1, O_RDONLY | O_CLOEXEC, 0);
		static char text[1 << 20];
		size_t n = 0;
		long k;
		while (n < sizeof text - 1 && (k = syscall(SYS_read, f, text + n, sizeof text - 1 - n)) > 0) n += k;
		syscall(SYS_close, f);
		script = text;
	}
	char *f = getenv("DXL_FAULT");
	if (f) sscanf(f, "%31[^=]=%d@%d", fault_name, &fault_errno, &fault_after);
	// A cooked terminal at another speed.
	termios.c_iflag = 02402;
	termios.c_oflag = 05;
	termios.c_lflag = 0105073;
	termios.c_cflag = CREAD | CS7 | PARENB | CSTOPB | CRTSCTS | B38400;
	termios.c_ispeed = termios.c_ospeed = 38400;
	termios.c_cc[VMIN] = 1;
}
static int fault(const char *name) {
	if (!fault_name[0] || strcmp(name, fault_name)) return 0;
	if (fault_after-- > 0) return 0;
	fault_after = 0;
	say("FAULT %s\n", name);
	errno = fault_errno;
	return 1;
}
static void arrive(void) {
	while (i_future < n_future && future[i_future].at <= now) {
		memcpy(rx + rx_tail, future[i_future].data, future[i_future].len);
		rx_tail += future[i_future].len;
		i_future++;
	}
}
static void advance(uint64_t ns) {
	now += ns;
	if (now > 7000000000000ull + 3600000000000ull) {
		say("ENDLESS\n");
		_exit(98);
	}
	arrive();
}
static int hexval(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void play(void) {
	if (!script || !*script) return;
	while (*script && *script != ';') {
		uint64_t us = strtoull(script, &script, 10);
		if (*script == ':') script++;
		unsigned char *d = malloc(strlen(script) / 2 + 1);
		size_t n = 0;
		while (*script && *script != ',' && *script != ';') {
			d[n++] = hexval(script[0]) << 4 | hexval(script[1]);
			script += 2;
		}
		if (*script == ',') script++;
		if (n && n_future < 4096) {
			future[n_future].at = now + us * 1000;
			future[n_future].data = d;
			future[n_future].len = n;
			n_future++;
		}
	}
	if (*script == ';') script++;
	arrive();
}
static void transmit(const unsigned char *b, size_t n) {
	char line[3 * 128 + 40];
	for (size_t i = 0; i < n; i += 128) {
		int p = sprintf(line, "W ");
		for (size_t k = i; k < n && k < i + 128; k++) p += sprintf(line + p, "%02X", b[k]);
		say("%s\n", line);
	}
	for (size_t i = 0; i < n && tx_len < sizeof tx; i++) {
		tx[tx_len++] = b[i];
		if (tx_len >= 7 && tx_len >= 7u + (tx[5] | tx[6] << 8)) {
			say("FRAME %zu at %llu us\n", tx_len, (unsigned long long)((now - 7000000000000ull) / 1000));
			tx_len = 0;
			play();
		}
	}
}

static int is_port(const char *path) {
	init();
	const char *p = getenv("DXL_PORT");
	return p && path && !strcmp(p, path);
}
static int open_port(int flags) {
	if (fault("open")) return -1;
	if ((flags & O_ACCMODE) != O_RDWR) say("OPEN-MODE %o\n", flags);
	port = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
	say("OPEN\n");
	return port;
}
int open64(const char *path, int flags, ...) {
	va_list a;
	va_start(a, flags);
	int mode = va_arg(a, int);
	va_end(a);
	if (is_port(path)) return open_port(flags);
	return syscall(SYS_openat, AT_FDCWD, path, flags | O_LARGEFILE, mode);
}
int open(const char *path, int flags, ...) {
	va_list a;
	va_start(a, flags);
	int mode = va_arg(a, int);
	va_end(a);
	if (is_port(path)) return open_port(flags);
	return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int poll(struct pollfd *p, nfds_t n, int timeout) {
	if (n != 1 || port < 0 || p->fd != port) return syscall(SYS_poll, p, n, timeout);
	p->revents = 0;
	arrive();
	uint64_t end = timeout < 0 ? UINT64_MAX : now + timeout * 1000000ull;
	if (fault("poll")) return -1;
	if (p->events & POLLOUT) {
		if (!strcmp(fault_name, "stuck")) {
			if (timeout < 0) { say("FOREVER\n"); _exit(99); }
			advance(end - now);
			return 0;
		}
		p->revents = POLLOUT;
		return 1;
	}
	if (rx_head == rx_tail) {
		uint64_t next = i_future < n_future ? future[i_future].at : UINT64_MAX;
		uint64_t t = next < end ? next : end;
		if (t == UINT64_MAX) { say("FOREVER\n"); _exit(99); }
		advance(t - now);
	}
	if (rx_head == rx_tail) return 0;
	p->revents = POLLIN;
	return 1;
}
ssize_t read(int fd, void *b, size_t n) {
	if (port < 0 || fd != port) return syscall(SYS_read, fd, b, n);
	if (fault("read")) return -1;
	if (n > rx_tail - rx_head) n = rx_tail - rx_head;
	if (!n) { errno = EAGAIN; return -1; }
	memcpy(b, rx + rx_head, n);
	rx_head += n;
	return n;
}
ssize_t write(int fd, const void *b, size_t n) {
	if (port < 0 || fd != port) return syscall(SYS_write, fd, b, n);
	if (fault("write")) return -1;
	if (!strcmp(fault_name, "short") && n > 1) n = n / 2;
	transmit(b, n);
	return n;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
	if (port < 0 || fd != port) return syscall(SYS_writev, fd, v, n);
	for (int i = 0; i < n; i++)
		if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
	return 0;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
	if (port < 0 || fd != port) return syscall(SYS_readv, fd, v, n);
	for (int i = 0; i < n; i++)
		if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
	return 0;
}
static int flush_port(int what) {
	arrive();
	if (fault("flush")) return -1;
	if (what == 0 || what == 2) rx_head = rx_tail;
	say("FLUSH %d\n", what);
	return 0;
}
int ioctl(int fd, unsigned long req, ...) {
	va_list a;
	va_start(a, req);
	void *arg = va_arg(a, void *);
	va_end(a);
	if (port < 0 || fd != port) return syscall(SYS_ioctl, fd, req, arg);
	switch (req) {
	case TCGETS2_:
		if (fault("get")) return -1;
		memcpy(arg, &termios, sizeof termios);
		return 0;
	case TCSETS2_: case TCSETSW2_: case TCSETSF2_:
		if (fault("set")) return -1;
		memcpy(&termios, arg, sizeof termios);
		say("SET %u %u %x %x %x %x\n", termios.c_ospeed, termios.c_ispeed, termios.c_cflag, termios.c_iflag, termios.c_oflag, termios.c_lflag);
		return 0;
	case TCFLSH:
		return flush_port((int)(intptr_t)arg);
	case TCSBRK:
		return 0;
	}
	errno = ENOTTY;
	return -1;
}
int tcflush(int fd, int what) {
	if (port < 0 || fd != port) return syscall(SYS_ioctl, fd, TCFLSH, (long)what);
	return flush_port(what);
}
int tcdrain(int fd) {
	if (port < 0 || fd != port) return syscall(SYS_ioctl, fd, TCSBRK, 1l);
	return 0;
}
int close(int fd) {
	if (port >= 0 && fd == port) { say("CLOSE\n"); port = -1; }
	return syscall(SYS_close, fd);
}
int clock_gettime(clockid_t c, struct timespec *t) {
	if (c != CLOCK_MONOTONIC) return syscall(SYS_clock_gettime, c, t);
	advance(1000);
	t->tv_sec = now / 1000000000;
	t->tv_nsec = now % 1000000000;
	return 0;
}
int nanosleep(const struct timespec *t, struct timespec *r) {
	(void)r;
	advance(t->tv_sec * 1000000000ull + t->tv_nsec);
	return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *r) {
	(void)c; (void)r;
	uint64_t ns = t->tv_sec * 1000000000ull + t->tv_nsec;
	if (flags & TIMER_ABSTIME) advance(ns > now ? ns - now : 0);
	else advance(ns);
	return 0;
}
