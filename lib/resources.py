"""Monitor of what a call leaves behind: files, descriptors, processes, threads."""

import gc
import os
import threading


def descriptors():
    out = set()
    for fd in os.listdir("/proc/self/fd"):
        try:
            out.add((fd, os.readlink("/proc/self/fd/" + fd)))
        except OSError:
            pass
    return out


def children():
    out = set()
    for task in os.listdir("/proc/self/task"):
        try:
            with open("/proc/self/task/%s/children" % task) as f:
                out |= set(f.read().split())
        except OSError:
            pass
    return out


class Watch:
    def __init__(self, directory):
        self.directory = directory
        gc.collect()
        self.before = self.state()

    def state(self):
        files = set()
        for top, _, names in os.walk(self.directory):
            files |= {os.path.join(top, n) for n in names}
        return {"files": files, "descriptors": descriptors(), "processes": children(),
                "threads": {t.ident for t in threading.enumerate()}}

    def judge(self, obs, **detail):
        """Nothing may be left which was not there before."""
        gc.collect()
        now = self.state()
        for what, before in self.before.items():
            left = now[what] - before
            obs.check(not left, "left-behind-" + what, left=sorted(map(str, left)), **detail)
            gone = before - now[what] if what == "files" else ()
            obs.check(not gone, "removed-" + what, gone=sorted(map(str, gone)), **detail)
