"""Scratch repositories for demonstrations: everything below a temporary directory."""
import atexit
import contextlib
import datetime
import json
import os
import shutil
import struct
import sys
import tempfile
from pathlib import Path
from unittest import mock

import structlog

structlog.configure(processors=[structlog.processors.KeyValueRenderer()],
                    logger_factory=structlog.PrintLoggerFactory(open(os.devnull, "w")))
log = structlog.stdlib.get_logger()
TMP = Path(tempfile.mkdtemp(prefix="demo"))
atexit.register(shutil.rmtree, TMP, True)
os.chdir(TMP)

from backy.repository import Repository  # noqa: E402
from backy.revision import Revision, Trust  # noqa: E402
from backy.schedule import Schedule  # noqa: E402

MiB = 1024 * 1024
SCHEDULE = {"daily": {"interval": "1d", "keep": 3}}


def make_repo(name="repo", schedule=None):
    s = Schedule()
    s.configure(schedule or SCHEDULE)
    r = Repository(TMP / name, s, log)
    r.connect()
    return r


def make_rev(repo, tags=("daily",), complete=False, age=0, server="", data=None):
    r = Revision.create(repo, set(tags), log)
    r.timestamp = r.timestamp - datetime.timedelta(seconds=age)
    r.server = server
    if complete:
        r.stats["duration"] = 1.0
    r.materialize()
    repo.scan()
    return repo.find_by_uuid(r.uuid)


def rbd_source(repo):
    from backy.rbd import CephRBD, RBDSource
    ceph = CephRBD("rbd", "vm.root", log)
    return RBDSource(repo, ceph, log)


def store_data(source, rev, data):
    with source.open(rev, "wb") as f:
        f.write(data)


def load_data(source, rev):
    with source.open(rev) as f:
        return f.read()


def mode(flags):
    import fcntl
    return {fcntl.LOCK_SH: "SH", fcntl.LOCK_EX | fcntl.LOCK_NB: "EX",
            fcntl.LOCK_EX: "EX!"}.get(flags, str(flags))


def lock_free(repo, name, shared=False):
    """Could another process take this lock now?"""
    import fcntl
    with (repo.path / name).open("a") as f:
        try:
            fcntl.flock(f, (fcntl.LOCK_SH if shared else fcntl.LOCK_EX) | fcntl.LOCK_NB)
        except BlockingIOError:
            return False
        return True


class FakeCeph:
    """The `rbd` command line, on an image kept in memory."""

    def __init__(self, source, image=b""):
        self.image = image
        self.snaps = {}
        self.calls = []
        c = source.ceph_rbd.rbd
        c._ceph_cli = self.cli
        c.image_reader = self.reader
        c.export = self.export
        c.export_diff = self.export_diff

    def cli(self, cmd, encoding="utf-8"):
        cmd = list(cmd)[1:]
        self.calls.append(cmd)
        if cmd[:2] == ["snap", "create"]:
            self.snaps[cmd[2].split("@")[1]] = self.image
            return ""
        if cmd[:2] == ["snap", "ls"]:
            return json.dumps([{"name": n} for n in self.snaps])
        if cmd[:2] == ["snap", "rm"]:
            del self.snaps[cmd[2].split("@")[1]]
            return ""
        if cmd[0] == "info":
            if "@" in cmd[1] and cmd[1].split("@")[1] not in self.snaps:
                import subprocess
                raise subprocess.CalledProcessError(2, cmd)
            return "{\"name\": \"x\"}"
        raise RuntimeError(cmd)

    @contextlib.contextmanager
    def reader(self, image):
        import io
        yield io.BytesIO(self.snaps[image.split("@")[1]])

    export = reader

    @contextlib.contextmanager
    def export_diff(self, new, old):
        import io
        from backy.rbd.rbd import RBDDiffV1
        a, b = self.snaps[old], self.snaps[new.split("@")[1]]
        out = b"rbd diff v1\n"
        for t, n in ((b"f", old), (b"t", new.split("@")[1])):
            out += t + struct.pack("<i", len(n)) + n.encode()
        out += b"s" + struct.pack("<Q", len(b))
        step = 4 * MiB
        for p in range(0, len(b), step):
            if a[p:p + step] != b[p:p + step]:
                c = b[p:p + step]
                out += b"w" + struct.pack("<QQ", p, len(c)) + c
        out += b"e"
        yield RBDDiffV1(io.BytesIO(out))


def fail(msg):
    print("BROKEN:", msg)
    sys.exit(1)


def check(cond, msg):
    if not cond:
        fail(msg)
