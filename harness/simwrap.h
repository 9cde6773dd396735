/* Force-included into the code under test: its threads, locks, clocks and
 * sleeps become those of the deterministic simulator (simcore.h). */
#ifndef SIMWRAP_H
#define SIMWRAP_H
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#define SIM_FUNCS(X) \
	X(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)) \
	X(int, pthread_join, (pthread_t, void **)) \
	X(int, pthread_timedjoin_np, (pthread_t, void **, const struct timespec *)) \
	X(int, pthread_tryjoin_np, (pthread_t, void **)) \
	X(int, pthread_detach, (pthread_t)) \
	X(pthread_t, pthread_self, (void)) \
	X(int, pthread_equal, (pthread_t, pthread_t)) \
	X(void, pthread_exit, (void *)) \
	X(int, pthread_setname_np, (pthread_t, const char *)) \
	X(int, pthread_sigmask, (int, const sigset_t *, sigset_t *)) \
	X(int, pthread_mutex_init, (pthread_mutex_t *, const pthread_mutexattr_t *)) \
	X(int, pthread_mutex_destroy, (pthread_mutex_t *)) \
	X(int, pthread_mutex_lock, (pthread_mutex_t *)) \
	X(int, pthread_mutex_trylock, (pthread_mutex_t *)) \
	X(int, pthread_mutex_timedlock, (pthread_mutex_t *, const struct timespec *)) \
	X(int, pthread_mutex_unlock, (pthread_mutex_t *)) \
	X(int, pthread_condattr_init, (pthread_condattr_t *)) \
	X(int, pthread_condattr_destroy, (pthread_condattr_t *)) \
	X(int, pthread_condattr_setclock, (pthread_condattr_t *, clockid_t)) \
	X(int, pthread_condattr_getclock, (const pthread_condattr_t *, clockid_t *)) \
	X(int, pthread_cond_init, (pthread_cond_t *, const pthread_condattr_t *)) \
	X(int, pthread_cond_destroy, (pthread_cond_t *)) \
	X(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *)) \
	X(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, const struct timespec *)) \
	X(int, pthread_cond_clockwait, (pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)) \
	X(int, pthread_cond_signal, (pthread_cond_t *)) \
	X(int, pthread_cond_broadcast, (pthread_cond_t *)) \
	X(int, pthread_rwlock_init, (pthread_rwlock_t *, const pthread_rwlockattr_t *)) \
	X(int, pthread_rwlock_destroy, (pthread_rwlock_t *)) \
	X(int, pthread_rwlock_rdlock, (pthread_rwlock_t *)) \
	X(int, pthread_rwlock_wrlock, (pthread_rwlock_t *)) \
	X(int, pthread_rwlock_unlock, (pthread_rwlock_t *)) \
	X(int, pthread_spin_init, (pthread_spinlock_t *, int)) \
	X(int, pthread_spin_destroy, (pthread_spinlock_t *)) \
	X(int, pthread_spin_lock, (pthread_spinlock_t *)) \
	X(int, pthread_spin_trylock, (pthread_spinlock_t *)) \
	X(int, pthread_spin_unlock, (pthread_spinlock_t *)) \
	X(int, pthread_once, (pthread_once_t *, void (*)(void))) \
	X(int, sem_init, (sem_t *, int, unsigned)) \
	X(int, sem_destroy, (sem_t *)) \
	X(int, sem_post, (sem_t *)) \
	X(int, sem_wait, (sem_t *)) \
	X(int, sem_trywait, (sem_t *)) \
	X(int, sem_timedwait, (sem_t *, const struct timespec *)) \
	X(int, clock_gettime, (clockid_t, struct timespec *)) \
	X(int, clock_getres, (clockid_t, struct timespec *)) \
	X(int, clock_nanosleep, (clockid_t, int, const struct timespec *, struct timespec *)) \
	X(int, nanosleep, (const struct timespec *, struct timespec *)) \
	X(int, usleep, (useconds_t)) \
	X(unsigned, sleep, (unsigned)) \
	X(int, sched_yield, (void)) \
	X(int, gettimeofday, (struct timeval *, void *)) \
	X(time_t, time, (time_t *)) \
	X(void *, memcpy, (void *, const void *, size_t)) \
	X(void *, memmove, (void *, const void *, size_t))
#define SIM_DECL(r, n, a) r sim_##n a;
SIM_FUNCS(SIM_DECL)

#ifndef SIM_IMPL
#define pthread_create sim_pthread_create
#define pthread_join sim_pthread_join
#define pthread_timedjoin_np sim_pthread_timedjoin_np
#define pthread_tryjoin_np sim_pthread_tryjoin_np
#define pthread_detach sim_pthread_detach
#define pthread_self sim_pthread_self
#define pthread_equal sim_pthread_equal
#define pthread_exit sim_pthread_exit
#define pthread_setname_np sim_pthread_setname_np
#define pthread_sigmask sim_pthread_sigmask
#define pthread_mutex_init sim_pthread_mutex_init
#define pthread_mutex_destroy sim_pthread_mutex_destroy
#define pthread_mutex_lock sim_pthread_mutex_lock
#define pthread_mutex_trylock sim_pthread_mutex_trylock
#define pthread_mutex_timedlock sim_pthread_mutex_timedlock
#define pthread_mutex_unlock sim_pthread_mutex_unlock
#define pthread_condattr_init sim_pthread_condattr_init
#define pthread_condattr_destroy sim_pthread_condattr_destroy
#define pthread_condattr_setclock sim_pthread_condattr_setclock
#define pthread_condattr_getclock sim_pthread_condattr_getclock
#define pthread_cond_init sim_pthread_cond_init
#define pthread_cond_destroy sim_pthread_cond_destroy
#define pthread_cond_wait sim_pthread_cond_wait
#define pthread_cond_timedwait sim_pthread_cond_timedwait
#define pthread_cond_clockwait sim_pthread_cond_clockwait
#define pthread_cond_signal sim_pthread_cond_signal
#define pthread_cond_broadcast sim_pthread_cond_broadcast
#define pthread_rwlock_init sim_pthread_rwlock_init
#define pthread_rwlock_destroy sim_pthread_rwlock_destroy
#define pthread_rwlock_rdlock sim_pthread_rwlock_rdlock
#define pthread_rwlock_wrlock sim_pthread_rwlock_wrlock
#define pthread_rwlock_unlock sim_pthread_rwlock_unlock
#define pthread_spin_init sim_pthread_spin_init
#define pthread_spin_destroy sim_pthread_spin_destroy
#define pthread_spin_lock sim_pthread_spin_lock
#define pthread_spin_trylock sim_pthread_spin_trylock
#define pthread_spin_unlock sim_pthread_spin_unlock
#define pthread_once sim_pthread_once
#define sem_init sim_sem_init
#define sem_destroy sim_sem_destroy
#define sem_post sim_sem_post
#define sem_wait sim_sem_wait
#define sem_trywait sim_sem_trywait
#define sem_timedwait sim_sem_timedwait
#define clock_gettime sim_clock_gettime
#define clock_getres sim_clock_getres
#define clock_nanosleep sim_clock_nanosleep
#define nanosleep sim_nanosleep
#define usleep sim_usleep
#define sleep sim_sleep
#define sched_yield sim_sched_yield
#define gettimeofday sim_gettimeofday
#define time(x) sim_time(x)
#define memcpy sim_memcpy
#define memmove sim_memmove
#endif
#endif
