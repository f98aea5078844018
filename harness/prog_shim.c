/*
 * Linked into fstrm_capture: runs its event loop in lock step with a driver
 * (lib/progdrv.py) and gives it a clock. Whenever the program is about to wait
 * for events and none is pending it reports "I" on a control socket and takes
 * commands:
 *   g         look for events again
 *   tNNN\n    set the time (seconds)
 *   kNN\n     a signal arrives while it waits
 *   rNN\n     a signal arrives just before it starts waiting
 *   m         report "MEM FDS\n": bytes allocated, descriptors open
 * Without FSTRMV_CTL in the environment nothing is changed.
 * With FSTRMV_MEM (a descriptor), the same report is written there at exit.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int ctl = -1, memfd = -1;
static long long now;

extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

static void
report(int to)
{
	char b[64];
	int fds = 0, n;
	for (int fd = 0; fd < 1024; fd++)
		fds += fcntl(fd, F_GETFD) >= 0;
	n = snprintf(b, sizeof(b), "%zu %d\n", __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0, fds);
	while (write(to, b, n) < 0 && errno == EINTR)
		;
}

__attribute__((destructor)) static void
shim_exit(void)
{
	if (memfd >= 0)
		report(memfd);
}

__attribute__((constructor)) static void
shim_init(void)
{
	const char *s;
	if ((s = getenv("FSTRMV_CTL")) != NULL)
		ctl = atoi(s);
	if ((s = getenv("FSTRMV_MEM")) != NULL)
		memfd = atoi(s);
	if ((s = getenv("FSTRMV_TIME")) != NULL)
		now = atoll(s);
	if ((s = getenv("FSTRMV_FSIZE")) != NULL) {
		struct rlimit rl = { atoll(s), atoll(s) };
		signal(SIGXFSZ, SIG_IGN);
		setrlimit(RLIMIT_FSIZE, &rl);
	}
}

static int
real_wait(int epfd, struct epoll_event *ev, int max, int timeout)
{
	return syscall(SYS_epoll_wait, epfd, ev, max, timeout);
}

static void
put(char c)
{
	while (write(ctl, &c, 1) < 0 && errno == EINTR)
		;
}

static char
get(void)
{
	char c;
	for (;;) {
		ssize_t n = read(ctl, &c, 1);
		if (n == 1)
			return c;
		if (n == 0 || errno != EINTR)
			_exit(99);      /* the driver is gone */
	}
}

static long long
num(void)
{
	long long n = 0;
	char c;
	while ((c = get()) != '\n')
		n = n * 10 + (c - '0');
	return n;
}

int
epoll_wait(int epfd, struct epoll_event *ev, int max, int timeout)
{
	if (ctl < 0)
		return real_wait(epfd, ev, max, timeout);
	for (;;) {
		int n = real_wait(epfd, ev, max, 0);
		if (n != 0 || timeout == 0)
			return n;
		if (timeout > 0)
			return real_wait(epfd, ev, max, timeout);
		put('I');
		switch (get()) {
		case 'm':
			report(ctl);
			break;
		case 't':
			now = num();
			break;
		case 'r':
			raise((int) num());
			break;
		case 'k':
			raise((int) num());
			if ((n = real_wait(epfd, ev, max, 0)) != 0)
				return n;
			errno = EINTR;
			return -1;
		}
	}
}

time_t
time(time_t *t)
{
	if (ctl < 0) {
		struct timespec ts;
		syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
		now = ts.tv_sec;
	}
	if (t)
		*t = now;
	return now;
}

int
clock_gettime(clockid_t id, struct timespec *ts)
{
	if (ctl >= 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
		ts->tv_sec = now;
		ts->tv_nsec = 999999999;
		return 0;
	}
	return syscall(SYS_clock_gettime, id, ts);
}

int
gettimeofday(struct timeval *tv, void *tz)
{
	struct timespec ts;
	int r = clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	(void) tz;
	return r;
}
