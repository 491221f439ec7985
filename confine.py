"""Confines a process and its children, with Landlock, to writing below some directories.

The code under test decides where files are written and which are removed. Whatever a changed
version of it makes of that, nothing outside the scratch directory of the check is affected:
the call gets EACCES. Where the kernel has no Landlock this does nothing."""
import ctypes
import os
import struct

CREATE, ADD, RESTRICT = 444, 445, 446
WRITE_FILE = 1 << 1
REMOVE = 1 << 4 | 1 << 5
MAKE = sum(1 << i for i in range(6, 13))
REFER, TRUNCATE = 1 << 13, 1 << 14


def confiner(dirs):
    """A preexec_fn, or None if that can't be done here."""
    libc = ctypes.CDLL(None, use_errno=True)
    abi = libc.syscall(CREATE, None, 0, 1)
    if abi < 2:
        return None
    rights = WRITE_FILE | REMOVE | MAKE | REFER | (TRUNCATE if abi >= 3 else 0)
    attr = ctypes.create_string_buffer(struct.pack("<Q", rights))
    ruleset = libc.syscall(CREATE, attr, 8, 0)
    if ruleset < 0:
        return None
    for d in dirs:
        try:
            fd = os.open(d, os.O_PATH | os.O_CLOEXEC)
        except OSError:
            continue
        allowed = rights if os.path.isdir(d) else rights & (WRITE_FILE | TRUNCATE)
        rule = ctypes.create_string_buffer(struct.pack("<Qi", allowed, fd))
        rc = libc.syscall(ADD, ruleset, 1, rule, 0)
        os.close(fd)
        if rc:
            os.close(ruleset)
            return None

    def enter():
        libc.prctl(38, 1, 0, 0, 0)  # PR_SET_NO_NEW_PRIVS
        libc.syscall(RESTRICT, ruleset, 0)
    return enter
