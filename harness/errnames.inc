E(ENOERR, 0, "No error")
E(EPERM, 1, "Operation not permitted")
E(ENOENT, 2, "No such file or directory")
E(ESRCH, 3, "No such process")
E(EINTR, 4, "Interrupted system call")
E(EIO, 5, "I/O error")
E(ENXIO, 6, "No such device or address")
E(E2BIG, 7, "Argument list too long")
E(ENOEXEC, 8, "Exec format error")
E(EBADF, 9, "Bad file number")
E(ECHILD, 10, "No child processes")
E(EAGAIN, 11, "Try again")
E(ENOMEM, 12, "Out of memory")
E(EACCES, 13, "Permission denied")
E(EFAULT, 14, "Bad address")
E(ENOTBLK, 15, "Block device required")
E(EBUSY, 16, "Device or resource busy")
E(EEXIST, 17, "File exists")
E(EXDEV, 18, "Cross-device link")
E(ENODEV, 19, "No such device")
E(ENOTDIR, 20, "Not a directory")
E(EISDIR, 21, "Is a directory")
E(EINVAL, 22, "Invalid argument")
E(ENFILE, 23, "File table overflow")
E(EMFILE, 24, "Too many open files")
E(ENOTTY, 25, "Not a typewriter")
E(ETXTBSY, 26, "Text file busy")
E(EFBIG, 27, "File too large")
E(ENOSPC, 28, "No space left on device")
E(ESPIPE, 29, "Illegal seek")
E(EROFS, 30, "Read-only file system")
E(EMLINK, 31, "Too many links")
E(EPIPE, 32, "Broken pipe")
E(EDOM, 33, "Math argument out of domain of func")
E(ERANGE, 34, "Math result not representable")
E(EDEADLK, 35, "Resource deadlock would occur")
E(ENAMETOOLONG, 36, "File name too long")
E(ENOLCK, 37, "No record locks available")
E(ENOSYS, 38, "Invalid system call number")
E(EBFONT, 59, "Bad font file format")
E(ENOSTR, 60, "Device not a stream")
E(ENODATA, 61, "No data available")
E(ETIME, 62, "Timer expired")
E(ENOSR, 63, "Out of streams resources")
E(ENONET, 64, "Machine is not on the network")
E(ENOPKG, 65, "Package not installed")
E(EREMOTE, 66, "Object is remote")
E(ENOLINK, 67, "Link has been severed")
E(EADV, 68, "Advertise error")
E(ESRMNT, 69, "Srmount error")
E(ECOMM, 70, "Communication error on send")
E(EPROTO, 71, "Protocol error")
E(EMULTIHOP, 72, "Multihop attempted")
E(EDOTDOT, 73, "RFS specific error")
E(EBADMSG, 74, "Not a data message")
E(EOVERFLOW, 75, "Value too large for defined data type")
E(ENOTUNIQ, 76, "Name not unique on network")
E(EBADFD, 77, "File descriptor in bad state")
E(EREMCHG, 78, "Remote address changed")
E(ELIBACC, 79, "Can not access a needed shared library")
E(ELIBBAD, 80, "Accessing a corrupted shared library")
E(ELIBSCN, 81, ".lib section in a.out corrupted")
E(ELIBMAX, 82, "Attempting to link in too many shared libraries")
E(ELIBEXEC, 83, "Cannot exec a shared library directly")
E(EILSEQ, 84, "Illegal byte sequence")
E(ERESTART, 85, "Interrupted system call should be restarted")
E(ESTRPIPE, 86, "Streams pipe error")
E(EUSERS, 87, "Too many users")
E(ENOTSOCK, 88, "Socket operation on non-socket")
E(EDESTADDRREQ, 89, "Destination address required")
E(EMSGSIZE, 90, "Message too long")
E(EPROTOTYPE, 91, "Protocol wrong type for socket")
E(ENOPROTOOPT, 92, "Protocol not available")
E(EPROTONOSUPPORT, 93, "Protocol not supported")
E(ESOCKTNOSUPPORT, 94, "Socket type not supported")
E(EOPNOTSUPP, 95, "Operation not supported on transport endpoint")
E(EPFNOSUPPORT, 96, "Protocol family not supported")
E(EAFNOSUPPORT, 97, "Address family not supported by protocol")
E(EADDRINUSE, 98, "Address already in use")
E(EADDRNOTAVAIL, 99, "Cannot assign requested address")
E(ENETDOWN, 100, "Network is down")
E(ENETUNREACH, 101, "Network is unreachable")
E(ENETRESET, 102, "Network dropped connection because of reset")
E(ECONNABORTED, 103, "Software caused connection abort")
E(ECONNRESET, 104, "Connection reset by peer")
E(ENOBUFS, 105, "No buffer space available")
E(EISCONN, 106, "Transport endpoint is already connected")
E(ENOTCONN, 107, "Transport endpoint is not connected")
E(ESHUTDOWN, 108, "Cannot send after transport endpoint shutdown")
E(ETOOMANYREFS, 109, "Too many references: cannot splice")
E(ETIMEDOUT, 110, "Connection timed out")
E(ECONNREFUSED, 111, "Connection refused")
E(EHOSTDOWN, 112, "Host is down")
E(EHOSTUNREACH, 113, "No route to host")
E(EALREADY, 114, "Operation already in progress")
E(EINPROGRESS, 115, "Operation now in progress")
E(ESTALE, 116, "Stale file handle")
E(EUCLEAN, 117, "Structure needs cleaning")
E(ENOTNAM, 118, "Not a XENIX named type file")
E(ENAVAIL, 119, "No XENIX semaphores available")
E(EISNAM, 120, "Is a named type file")
E(EREMOTEIO, 121, "Remote I/O error")
E(EDQUOT, 122, "Quota exceeded")
E(ENOMEDIUM, 123, "No medium found")
E(EMEDIUMTYPE, 124, "Wrong medium type")
E(ECANCELED, 125, "Operation Canceled")
E(ENOKEY, 126, "Required key not available")
E(EKEYEXPIRED, 127, "Key has expired")
E(EKEYREVOKED, 128, "Key has been revoked")
E(EKEYREJECTED, 129, "Key was rejected by service")
