/*
 * Included before a driver to run it as one of several tasks of a simulated process (iso_main.c): its
 * input and output are those of the task, and after each call it may be another task's turn.
 */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/select.h>
#include <poll.h>
#include <unistd.h>
FILE *iso_in(void), *iso_out(void);
int iso_flush(FILE *);
#undef stdin
#undef stdout
#undef putchar
#define stdin iso_in()
#define stdout iso_out()
#define printf(...) fprintf(iso_out(), __VA_ARGS__)
#define putchar(c) putc(c, iso_out())
#define fflush(f) iso_flush(f)
#define alarm(x) ((void) 0)
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define main CAT(iso_main_, ISO)
#define sim_on_bad CAT(iso_on_bad_, ISO)
#define sim_on_free CAT(iso_on_free_, ISO)
#define sim_on_join CAT(iso_on_join_, ISO)
#define __wrap_fstrm_writer_writev CAT(iso_wv_, ISO)
#define __wrap_socket CAT(iso_socket_, ISO)
#define __wrap_connect CAT(iso_connect_, ISO)
#define __wrap_close CAT(iso_close_, ISO)
#define __wrap_sendmsg CAT(iso_sendmsg_, ISO)
#define __wrap_writev CAT(iso_writev_, ISO)
#define __wrap_send CAT(iso_send_, ISO)
#define __wrap_sendto CAT(iso_sendto_, ISO)
#define __wrap_write CAT(iso_write_, ISO)
#define __wrap_read CAT(iso_read_, ISO)
#define __wrap_recv CAT(iso_recv_, ISO)
#define __wrap_recvfrom CAT(iso_recvfrom_, ISO)
#define __wrap_recvmsg CAT(iso_recvmsg_, ISO)
#define __wrap_readv CAT(iso_readv_, ISO)
#define __wrap_fcntl CAT(iso_fcntl_, ISO)
#define __wrap_setsockopt CAT(iso_setsockopt_, ISO)
#define __wrap_getsockopt CAT(iso_getsockopt_, ISO)
#define __wrap_shutdown CAT(iso_shutdown_, ISO)
#define __wrap_poll CAT(iso_poll_, ISO)
#define __wrap_select CAT(iso_select_, ISO)
