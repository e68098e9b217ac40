HARNESS = {
    'h_json': dict(src=['h_json.cpp'], repo=['json/*.cpp']),
    'h_convert': dict(src=['h_convert.cpp'], repo=['convert/*.cpp']),
    'h_containers': dict(src=['h_containers.cpp'], repo=['templates/*.cpp']),
    'h_find': dict(src=['h_find.cpp'], repo=[]),
    'h_text': dict(src=['h_text.cpp'], repo=['utf8/utf8_util.cpp']),
    'h_file': dict(src=['h_file.cpp'], repo=['utf8/utf8_util.cpp', 'utf8/utf8_file_dir.cpp'], link=['-Wl,' + ','.join('--wrap=' + f for f in 'read write ftruncate ftruncate64 rename unlink remove rmdir flock lseek64 open chown sync fsync fdatasync syncfs'.split())]),
    'h_misc': dict(src=['h_misc.cpp'], repo=['utf8/utf8_util.cpp', 'utf8/utf8_appinfo.cpp', 'environment/*.cpp', 'security/*.cpp'], link=['-Wl,' + ','.join('--wrap=' + f for f in 'readlink realpath getpwuid open open64 read close gettimeofday clock_gettime time'.split())]),
    'h_tls': dict(src=['h_tls.cpp'], repo=['sync/sync_tls.cpp'], link=['-Wl,' + ','.join('--wrap=' + f for f in 'malloc calloc realloc free'.split())]),
    'h_sync': dict(src=['h_sync.cpp', 'sim.cpp'], repo=['sync/sync_util.cpp', 'sync/sync_mutex.cpp', 'sync/sync_semaphore.cpp', 'sync/sync_event.cpp', 'sync/sync_readwritelock.cpp', 'sync/sync_sharedmem.cpp'], san=['-fsanitize=thread'], src_san=[], link=['-Wl,' + ','.join('--wrap=' + f for f in 'pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_self clock_gettime gettimeofday time usleep nanosleep sched_yield shm_open shm_unlink ftruncate ftruncate64 close umask mmap munmap'.split())]),
}
def P(h, quick=(25, 2000000), thorough=(240, 60000000), level='exploration', assumptions=(), tech='model', **kw):
    return dict(level=level, tech=tech, assumptions=list(assumptions), harness={h: dict(quick=quick, thorough=thorough, **kw)})
PROPS = {
    'C01': P('h_convert', tech='input'),
    'C02': P('h_convert', tech='input'),
    'J01': P('h_json'),
    'J02': P('h_json'),
    'Q01': P('h_containers'),
    'Q02': P('h_containers'),
    'H01': P('h_containers'),
    'H02': P('h_containers'),
    'H03': P('h_containers', tech='input'),
    'K01': P('h_containers'),
    'V01': P('h_containers'),
    'M01': P('h_text'),
    'U01': P('h_text', tech='input'),
    'U02': P('h_text', tech='input'),
    'S01': P('h_find', tech='input'),
    'S02': P('h_find'),
    'F01': P('h_file', tech='fault'),
    'F02': P('h_file', tech='fault'),
    'F03': P('h_file', tech='fault', level='fault_enumeration'),
    'F04': P('h_file', tech='input'),
    'F05': P('h_file'),
    'A01': P('h_misc', tech='input'),
    'A02': P('h_misc'),
    'R01': P('h_misc', tech='fault'),
    'L01': P('h_misc'),
    'T01': P('h_tls', tech='fault'),
    'T02': P('h_tls'),
    'Y01': P('h_sync', tech='sched'),
    'Y02': P('h_sync', tech='sched'),
    'Y03': P('h_sync', tech='sched'),
    'Y04': P('h_sync', tech='sched'),
    'Y05': P('h_sync', tech='sched'),
}
TECH = {
    'input': 'property-based testing: coverage-guided generated inputs against an independent reference oracle, with shrinking, under AddressSanitizer',
    'model': 'property-based testing: stateful model-based generation of operation histories against a reference model, coverage-guided, with shrinking, under AddressSanitizer',
    'fault': 'property-based testing: stateful model-based generation of histories with injected system-call faults against a reference model, with shrinking, under AddressSanitizer',
    'sched': 'property-based testing of schedules: generated programs and interleavings on a deterministic scheduler (preemption at every memory access and call, virtual time, simulated processes) against history invariants, with shrinking',
}
NOTE = {
    'input': 'Held on every generated case of the run; exploration, not proof.  Trusts the oracle in the harness, clang, AddressSanitizer and the POSIX (Linux, 64-bit) build of the code; Windows and macOS code is not executed.',
    'model': 'Held on every generated history of the run; exploration, not proof.  Trusts the model in the harness, clang, AddressSanitizer and the POSIX (Linux, 64-bit) build of the code; Windows and macOS code is not executed.',
    'fault': 'Held on every generated history and fault sequence of the run; exploration, not proof.  Faults are injected at the libc calls the code makes on Linux.  Trusts the model in the harness, clang and AddressSanitizer; Windows and macOS code is not executed.',
    'sched': 'Held on every generated program and interleaving of the run; exploration, not proof.  The pthread and shared-memory primitives are replaced by models under a sequentially consistent scheduler; weak-memory effects and the real kernel are outside.',
}
