"""Containment: code under test never changes the machine it is tested on.

An audit hook, inherited by every forked child, refuses calls that would write,
replace or remove anything below the system's directories, whatever the code
under test (or a planted bug) asks for.  Scratch space is not affected."""
import os
import sys

SYSTEM = ("/dev/", "/etc/", "/usr/", "/bin/", "/sbin/", "/lib", "/opt/", "/boot/", "/var/lib/", "/sys/", "/proc/sys/", "/root/", "/repo/", "/verif/")
FREE = ("/dev/null", "/dev/shm/", "/dev/tty", "/dev/pts/", "/dev/fd/")
# event: (position of a path, position of its directory's descriptor) pairs
NAMES = {"os.rename": ((0, 2), (1, 3)), "os.remove": ((0, 1),), "os.rmdir": ((0, 1),), "os.link": ((1, 3),), "os.symlink": ((1, 2),),
         "os.chmod": ((0, 2),), "os.chown": ((0, 3),), "os.truncate": ((0, 9),), "os.mkdir": ((0, 2),), "shutil.rmtree": ((0, 1),),
         "shutil.move": ((0, 9), (1, 9)), "os.utime": ((0, 3),)}
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC


def system(p, parent=False):
    if isinstance(p, int) or p is None:
        return False
    p = os.path.abspath(os.fsdecode(p))
    if "__pycache__" in p:
        return False
    if not parent:
        p = os.path.realpath(p)
    else:
        # the name itself is what changes
        p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
    return p.startswith(SYSTEM) and not p.startswith(FREE)


def at(args, i, d):
    p, fd = args[i], args[d] if d < len(args) else -1
    if isinstance(fd, int) and fd >= 0 and not isinstance(p, int):
        return os.path.join("/proc/self/fd/%d" % fd, os.fsdecode(p))
    return p


def hook(event, args):
    if event in NAMES:
        paths = [at(args, i, d) for i, d in NAMES[event] if i < len(args)]
        named = True
    elif event == "open" and isinstance(args[2], int) and args[2] & WRITE:
        paths, named = [args[0]], False
    else:
        return
    for p in paths:
        try:
            bad = system(p, named)
        except (TypeError, ValueError, OSError):
            continue
        if bad:
            raise PermissionError(1, "the simulator refuses %s" % event, os.fsdecode(p))


def install():
    sys.addaudithook(hook)
