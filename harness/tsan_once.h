/* ThreadSanitizer build only: a once-read is an atomic load that orders what depends
 * on it (as the library's memory model assumes), a once-write an atomic store. */
#define BFDEV_READ_ONCE(x) __atomic_load_n(&(x), __ATOMIC_ACQUIRE)
#define BFDEV_WRITE_ONCE(x, val) __atomic_store_n(&(x), (val), __ATOMIC_RELAXED)
