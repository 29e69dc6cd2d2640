"""What the analysis knows about the world outside src/backy."""
import builtins

EXC_BASE = {
    "asyncio.CancelledError": "BaseException",
    "subprocess.SubprocessError": "Exception",
    "subprocess.CalledProcessError": "subprocess.SubprocessError",
    "subprocess.TimeoutExpired": "subprocess.SubprocessError",
    "json.JSONDecodeError": "ValueError",
    "json.decoder.JSONDecodeError": "ValueError",
    "aiohttp.ClientError": "Exception",
    "aiohttp.ClientConnectionError": "aiohttp.ClientError",
    "aiohttp.ClientResponseError": "aiohttp.ClientError",
    "aiohttp.web_exceptions.HTTPException": "Exception",
    "lzo.error": "Exception",
    "yaml.YAMLError": "Exception",
    "struct.error": "Exception",
}
HTTP_STATUS = {"HTTPOk": 200, "HTTPCreated": 201, "HTTPAccepted": 202, "HTTPNoContent": 204, "HTTPResetContent": 205,
               "HTTPBadRequest": 400, "HTTPUnauthorized": 401, "HTTPForbidden": 403, "HTTPNotFound": 404,
               "HTTPRequestTimeout": 408, "HTTPConflict": 409, "HTTPGone": 410, "HTTPPreconditionFailed": 412,
               "HTTPInternalServerError": 500, "HTTPBadGateway": 502, "HTTPServiceUnavailable": 503}
ALIAS = {"IOError": "OSError", "asyncio.TimeoutError": "TimeoutError",
         "asyncio.exceptions.TimeoutError": "TimeoutError", "EnvironmentError": "OSError",
         "concurrent.futures.CancelledError": "asyncio.CancelledError",
         "asyncio.exceptions.CancelledError": "asyncio.CancelledError",
         "json.decoder.JSONDecodeError": "json.JSONDecodeError",
         "subprocess.SubprocessError": "subprocess.SubprocessError"}


def canon_exc(name):
    if name.startswith("builtins."):
        name = name[9:]
    if name.startswith("aiohttp.web.HTTP"):
        name = "aiohttp.web_exceptions." + name[len("aiohttp.web."):]
    if name.startswith("aiohttp.client_exceptions."):
        name = "aiohttp." + name.rsplit(".", 1)[1]
    return ALIAS.get(name, name)


def exc_ancestors(name, prog=None):
    """All ancestors (names) of an exception class, itself included."""
    name = canon_exc(name)
    out = [name]
    if prog and name in prog.class_by_qual:
        c = prog.class_by_qual[name]
        for k in prog.mro(c)[1:]:
            out.append(k.qual)
        for b in prog.ext_bases(c):
            out.extend(exc_ancestors(b, prog))
        return out
    b = getattr(builtins, name, None)
    if isinstance(b, type) and issubclass(b, BaseException):
        return [k.__name__ for k in b.__mro__ if k is not object]
    if name in EXC_BASE:
        return out + exc_ancestors(EXC_BASE[name], prog)
    if name.startswith("aiohttp.web_exceptions."):
        return out + exc_ancestors("aiohttp.web_exceptions.HTTPException", prog) \
            if name != "aiohttp.web_exceptions.HTTPException" else out + ["Exception", "BaseException"]
    return out + ["Exception", "BaseException"]


# functions whose result depends on their arguments only
PURE_FUNCS = {
    "len", "str", "repr", "int", "float", "bool", "bytes", "abs", "round",
    "min", "max", "sum", "divmod", "ord", "chr", "hash", "format", "type",
    "callable", "hasattr", "getattr", "isinstance", "issubclass", "vars",
    "id", "zip", "range", "map", "filter", "slice", "ascii", "hex",
    "math.ceil", "math.floor", "pathlib.Path", "pathlib.PurePath",
    "datetime.timedelta", "datetime.datetime.fromisoformat",
    "mmh3.hash_bytes", "mmh3.hash128", "binascii.hexlify", "lzo.compress",
    "lzo.decompress", "hashlib.md5", "hashlib.sha256", "zoneinfo.ZoneInfo",
    "os.fspath", "os.path.basename", "os.path.dirname", "os.path.split",
    "os.path.splitext", "os.path.abspath", "os.path.normpath",
    "inspect.signature", "struct.calcsize", "struct.unpack", "struct.pack",
    "re.compile", "re.split", "re.fullmatch", "re.match", "re.search",
    "typing.cast", "copy.deepcopy", "copy.copy", "json.dumps",
    "itertools.chain", "itertools.chain.from_iterable", "frozenset",
    "functools.partial", "os.path.realpath", "binascii.b2a_hex",
}
PURE_METHODS = {
    "startswith", "endswith", "strip", "lstrip", "rstrip", "split", "rsplit",
    "join", "format", "encode", "decode", "lower", "upper", "removeprefix",
    "removesuffix", "total_seconds", "timestamp", "isoformat", "astimezone",
    "strftime", "hexdigest", "digest", "group", "groups", "keys", "values",
    "items", "get", "union", "intersection", "difference", "issubset",
    "issuperset", "isdisjoint", "symmetric_difference", "index", "count",
    "resolve", "absolute", "relative_to", "with_name", "as_posix",
    "getvalue", "hex", "partition", "rpartition", "title", "splitlines",
    "search", "match", "fullmatch", "is_absolute", "bit_length", "date",
    "fileno", "expanduser", "isdigit", "copy", "with_traceback",
}
# mutate their receiver, have no other effect
MUTATORS = {
    "append", "extend", "add", "update", "discard", "remove", "pop", "insert",
    "clear", "sort", "setdefault", "popitem", "reverse", "appendleft",
    "popleft", "difference_update", "intersection_update",
    "symmetric_difference_update",
}
# never raise and have no effect a property depends on
QUIET_FUNCS = {
    "print", "time.time", "time.monotonic", "time.perf_counter", "time.sleep", "asyncio.sleep",
    "datetime.datetime.now", "datetime.datetime.utcnow", "object",
    "random.randint", "random.randbytes", "random.Random", "random.sample",
    "uuid.uuid4", "shortuuid.uuid", "os.getpid", "iter", "super",
    "collections.defaultdict", "collections.OrderedDict", "collections.deque",
    "io.BytesIO", "io.StringIO", "asyncio.Event", "asyncio.BoundedSemaphore",
    "asyncio.Semaphore", "asyncio.Lock", "asyncio.all_tasks",
    "asyncio.get_event_loop", "asyncio.get_running_loop",
    "structlog.stdlib.get_logger", "structlog.get_logger",
    "tzlocal.get_localzone", "humanize.naturaldelta", "humanize.naturalsize",
    "traceback.format_stack", "locals", "globals", "property", "contextlib.closing",
    "contextlib.suppress", "contextlib.ExitStack", "contextlib.AsyncExitStack",
    "contextlib.nullcontext", "sys.exc_info", "errno",
    "argparse.ArgumentParser", "rich.table.Table", "rich.table.Column",
}
LOG_METHODS = {"debug", "info", "warn", "warning", "error", "exception",
               "critical", "fatal", "log", "msg", "trace", "bind", "new", "unbind"}

EXT_RET = {
    "datetime.timedelta": ("ext", "datetime.timedelta"),
    "datetime.datetime.now": ("ext", "datetime.datetime"),
    "asyncio.Event": ("ext", "asyncio.Event"),
    "structlog.stdlib.get_logger": ("ext", "structlog.stdlib.BoundLogger"),
}

# canonical effect names for external functions; the value is the tuple of
# positions (in the canonical order) taken from the positional arguments
FS_FUNCS = {
    "os.unlink": "fs.unlink", "os.remove": "fs.unlink",
    "os.rename": "fs.rename", "os.replace": "fs.rename", "os.renames": "fs.rename",
    "shutil.move": "fs.rename", "os.link": "fs.link", "os.symlink": "fs.symlink",
    "os.chmod": "fs.chmod", "os.fchmod": "fs.chmod",
    "shutil.copy": "fs.copy", "shutil.copy2": "fs.copy", "shutil.copyfile": "fs.copy",
    "shutil.copyfileobj": "fs.copyobj",
    "shutil.rmtree": "fs.rmtree", "aioshutil.rmtree": "fs.rmtree",
    "shutil.copytree": "fs.copytree",
    "os.mkdir": "fs.mkdir", "os.makedirs": "fs.mkdir", "os.rmdir": "fs.rmdir",
    "os.removedirs": "fs.rmdir", "os.truncate": "fs.truncate", "os.utime": "fs.touch",
    "os.path.exists": "fs.exists", "aiofiles.os.path.exists": "fs.exists",
    "os.path.lexists": "fs.exists", "os.path.isfile": "fs.exists",
    "os.path.isdir": "fs.isdir", "aiofiles.os.path.isdir": "fs.isdir",
    "os.path.islink": "fs.islink", "aiofiles.os.path.islink": "fs.islink",
    "aiofiles.os.unlink": "fs.unlink", "aiofiles.os.remove": "fs.unlink",
    "aiofiles.os.rename": "fs.rename", "aiofiles.os.rmdir": "fs.rmdir",
    "os.scandir": "fs.scandir", "aiofiles.os.scandir": "fs.scandir",
    "os.listdir": "fs.scandir", "aiofiles.os.listdir": "fs.scandir",
    "os.stat": "fs.stat", "os.lstat": "fs.lstat", "aiofiles.os.stat": "fs.stat",
    "os.sync": "os.sync", "os.fsync": "file.fsync", "os.fdatasync": "file.fsync",
    "fcntl.flock": "flock", "fcntl.lockf": "flock",
    "os.write": "file.write", "os.close": "file.close", "os.ftruncate": "file.truncate",
    "os.chdir": "os.chdir", "glob.glob": "fs.glob", "glob.iglob": "fs.glob",
}
FS_METHODS = {
    "unlink": "fs.unlink", "rename": "fs.rename", "chmod": "fs.chmod",
    "touch": "fs.touch", "mkdir": "fs.mkdir", "rmdir": "fs.rmdir",
    "write_text": "fs.writefile", "write_bytes": "fs.writefile",
    "read_text": "fs.readfile", "read_bytes": "fs.readfile",
    "is_symlink": "fs.islink", "is_dir": "fs.isdir", "is_file": "fs.exists",
    "exists": "fs.exists", "glob": "fs.glob", "rglob": "fs.glob",
    "iterdir": "fs.scandir", "symlink_to": "fs.symlink", "hardlink_to": "fs.link",
    "stat": "fs.stat", "lstat": "fs.lstat",
}
# methods that only count as a path operation if the receiver is known to be one
FS_METHODS_AMBIGUOUS = {"replace": "fs.rename", "open": "fs.open"}
FILE_METHODS = {"write", "read", "flush", "close", "truncate", "seek", "tell",
                "readline", "readlines", "writelines", "readinto"}
SPAWN = {
    "subprocess.run", "subprocess.call", "subprocess.check_call",
    "subprocess.check_output", "subprocess.Popen", "subprocess.getoutput",
    "subprocess.getstatusoutput", "os.system", "os.popen", "os.spawnv",
    "os.spawnl", "os.spawnlp", "os.spawnvp", "os.execv", "os.execvp", "os.execl",
    "os.execlp", "asyncio.create_subprocess_exec",
    "asyncio.create_subprocess_shell", "os.posix_spawn",
}
SPAWN_CHECKED = {"subprocess.check_call", "subprocess.check_output"}
FS_READONLY = {"fs.exists", "fs.isdir", "fs.islink", "fs.stat", "fs.lstat",
               "fs.glob", "fs.scandir", "fs.readfile"}

DUMPERS = {"yaml.dump", "yaml.safe_dump", "json.dump"}

# exceptions of otherwise pure functions that callers must deal with
RAISES = {"lzo.decompress": "lzo.error", "struct.unpack": "struct.error",
          "json.loads": "json.JSONDecodeError"}
