# the calls redirected to the virtual world
W=""
for s in shm_open shm_unlink close ftruncate ftruncate64 posix_fallocate fstat fchmod mmap munmap shmdt madvise \
  sem_open sem_close sem_unlink sem_post sem_wait sem_trywait sem_timedwait sem_clockwait sem_getvalue \
  clock_gettime gettimeofday time _ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv \
  nanosleep clock_nanosleep usleep sleep sched_yield sysconf \
  pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock pthread_mutex_consistent \
  pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast \
  memcpy memmove memset; do W="$W -Wl,--wrap=$s"; done
