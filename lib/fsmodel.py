"""File system calls of the sources go to harness/fs.h."""
CALLS = {"open": "...", "close": 1, "stat": 2, "lstat": 2, "fstat": 2, "access": 2, "mkdir": 2, "mkstemp": 1, "fchmod": 2, "ftruncate": 2, "link": 2,
         "rename": 2, "unlink": 1, "rmdir": 1, "remove": 1, "mmap": 6, "munmap": 2, "opendir": 1, "readdir": 1, "closedir": 1}

NOTIFY = {"epoll_create1": 1, "epoll_ctl": 4, "epoll_wait": 4, "eventfd": 2, "inotify_init1": 1, "inotify_add_watch": 3, "inotify_rm_watch": 2, "read": 3, "write": 3,
          "pthread_create": 4, "pthread_join": 2}


def flags(names=None, more={}):
    r = []
    for n, k in list(CALLS.items()) + list(more.items()):
        if names is not None and n not in names:
            continue
        if k == "...":
            r.append("-D%s(...)=vh_%s(__VA_ARGS__)" % (n, n))
        else:
            a = ",".join("a%d" % i for i in range(k))
            r.append("-D%s(%s)=vh_%s(%s)" % (n, a, n, a))
    return r
