"""Building library code for the simulated runtime (harness/sim.c)."""
from common import *

WRAPS = '''pthread_create pthread_join pthread_detach pthread_self pthread_sigmask pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock
pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock pthread_condattr_init pthread_condattr_destroy pthread_condattr_setclock
pthread_cond_init pthread_cond_destroy pthread_cond_signal pthread_cond_broadcast pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait
sched_yield sem_init sem_destroy sem_post sem_wait sem_trywait sem_timedwait clock_gettime clock_getres gettimeofday time nanosleep clock_nanosleep
usleep sleep malloc calloc realloc free memcpy memmove memset'''.split()
TSAN = ['-fsanitize=thread', '-O2', '-fno-builtin-memcpy']
REAL = ['-D%s=__real_%s' % (f, f) for f in ('malloc', 'calloc', 'realloc', 'free', 'memcpy', 'memmove', 'memset')]


def build_sim(ctx, name, drivers, libsrcs, wraps=(), libflags=()):
    """libsrcs are instrumented; the harness files are not."""
    harness = [HARNESS + '/sim.c'] + drivers

    def per_file(s):
        if s in harness:
            # declared by hand: the real functions behind the wrappers
            return ['-O2'] + ([] if s.endswith('/sim.c') else ['-include', HARNESS + '/real.h'])
        return TSAN + list(libflags)
    return build(ctx, name, harness + libsrcs, ['-I' + REPO + '/fstrm'], ['-Wl,--wrap=' + w for w in list(WRAPS) + list(wraps)], per_file=per_file)
