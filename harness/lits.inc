#define LITS(X) X(0x0ULL) X(0x1ULL) X(0x2ULL) X(0x3ULL) X(0x4ULL) X(0x7ULL) X(0x8ULL) X(0x10ULL) X(0x20ULL) X(0x40ULL) X(0x55ULL) X(0x80ULL) X(0xffULL) X(0x100ULL) X(0x200ULL) X(0x400ULL) X(0x800ULL) X(0x1000ULL) X(0x1234ULL) X(0x2000ULL) X(0x4000ULL) X(0x7fffULL) X(0x8000ULL) X(0xffffULL) X(0x10000ULL) X(0x20000ULL) X(0x40000ULL) X(0x80000ULL) X(0x100000ULL) X(0x123456ULL) X(0x200000ULL) X(0x400000ULL) X(0x800000ULL) X(0x1000000ULL) X(0x2000000ULL) X(0x4000000ULL) X(0x8000000ULL) X(0x10000000ULL) X(0x20000000ULL) X(0x40000000ULL) X(0x7fffffffULL) X(0x80000000ULL) X(0xdeadbeefULL) X(0xffffffffULL) X(0x100000000ULL) X(0x200000000ULL) X(0x400000000ULL) X(0x800000000ULL) X(0x1000000000ULL) X(0x123456789aULL) X(0x2000000000ULL) X(0x4000000000ULL) X(0x8000000000ULL) X(0x10000000000ULL) X(0x20000000000ULL) X(0x40000000000ULL) X(0x80000000000ULL) X(0x100000000000ULL) X(0x100008000000ULL) X(0x200000000000ULL) X(0x400000000000ULL) X(0x7fffffffffffULL) X(0x800000000000ULL) X(0x1000000000000ULL) X(0x2000000000000ULL) X(0x4000000000000ULL) X(0x8000000000000ULL) X(0x10000000000000ULL) X(0x20000000000000ULL) X(0x40000000000000ULL) X(0x80000000000000ULL) X(0x100000000000000ULL) X(0x200000000000000ULL) X(0x400000000000000ULL) X(0x800000000000000ULL) X(0x800000010000000ULL) X(0x1000000000000000ULL) X(0x2000000000000000ULL) X(0x4000000000000000ULL) X(0x7fffffffffffffffULL) X(0x8000000000000000ULL) X(0x8000000000000001ULL) X(0xfedcba9876543210ULL) X(0xfffffffffffffffeULL) X(0xffffffffffffffffULL)
