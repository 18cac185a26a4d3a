import datetime
import decimal
import io
import json
import logging
import os
import re
import socket
import subprocess
import sys
import threading
import time
import traceback
import uuid

import aiomisc_log
from aiomisc_log.formatter.json import JSONLogFormatter, json_handler

from vf.core import Scenario
from vf.util import Boom

RULE = (
    "random log records (messages, arguments, extras of any type, levels, "
    "exceptions, missing attributes) formatted as JSON by many threads and "
    "compared with a model; all the other formats and levels; distinct by "
    "record shapes"
)

TEXTS = [
    "", "simple", "two\nlines", 'quo"te', "back\\slash", "tab\t", "\x00\x1f",
    "юникод", "\u2028\u2029", "😀", "\r\n", "%", "100%", "{}", "[red]",
    "a" * 300, "\x7f\x85", "null", "@fields",
]


class Odd:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"<Odd {self.n!r} \n\">"


class OddStr(str):
    pass


class OddInt(int):
    pass


class OddDict(dict):
    pass


def value(rng, depth=0):
    kind = rng.choice(
        ["text", "int", "float", "bool", "none", "obj", "bytes", "big",
         "date", "dec", "uuid", "set", "exc", "type", "complex"] +
        ["list", "dict", "intdict", "oddkeys", "tuple", "circle", "sub"] *
        (depth < 3)
    )
    if kind == "text":
        return rng.choice(TEXTS)
    if kind == "int":
        return rng.randint(-10, 10)
    if kind == "float":
        return rng.choice([0.0, -1.5, 1e300, 1e-300, 0.1])
    if kind == "bool":
        return rng.random() < 0.5
    if kind == "none":
        return None
    if kind == "obj":
        return Odd(rng.choice(TEXTS))
    if kind == "bytes":
        return bytes([rng.randint(0, 255) for _ in range(4)])
    if kind == "big":
        return 2 ** rng.randint(60, 200)
    if kind == "date":
        return datetime.datetime(2020, 1, rng.randint(1, 28))
    if kind == "dec":
        return decimal.Decimal("1.5")
    if kind == "uuid":
        return uuid.UUID(int=rng.getrandbits(128))
    if kind == "set":
        return {rng.randint(0, 9)}
    if kind == "exc":
        return Boom(rng.choice(TEXTS))
    if kind == "type":
        return rng.choice([Odd, int, json.dumps, threading.current_thread()])
    if kind == "complex":
        return 1j
    n = rng.randint(0, 3)
    if kind == "sub":
        return rng.choice([OddStr("s"), OddInt(3), OddDict(a=1)])
    if kind in ("list", "tuple"):
        seq = [value(rng, depth + 1) for _ in range(n)]
        return seq if kind == "list" else tuple(seq)
    if kind == "circle":
        loop = [1]
        loop.append(loop)
        return loop
    keys = {
        "dict": lambda i: rng.choice(TEXTS) + str(i),
        "intdict": lambda i: rng.choice([i, float(i), None, True, False]),
        "oddkeys": lambda i: rng.choice([(1, i), b"k%d" % i, Odd(i),
                                         frozenset([i]), "plain"]),
    }[kind]
    return {keys(i): value(rng, depth + 1) for i in range(n)}


def model_value(v):
    try:
        return json.loads(json.dumps(v, default=repr))
    except (TypeError, ValueError):
        return repr(v)


MAPPED = {
    "filename": "code_file", "funcName": "code_func", "lineno": "code_line",
    "module": "code_module", "name": "identifier", "msg": "message_raw",
    "process": "pid", "processName": "process_name",
    "threadName": "thread_name",
}
LEVELS = {50: {"crit", "fatal"}, 40: {"error"}, 30: {"warn"}, 20: {"info"},
          10: {"debug"}, 0: {None}}


def model_check(case, got, raw, record, datefmt):
    """Compare the parsed JSON to what the record says."""
    def check(cond, mech, **kw):
        case.check(cond, mech, record={k: repr(v)[:80] for k, v in
                                       raw.items()}, **kw)

    check(isinstance(got, dict), "JSON record is not an object")
    keys = {"@fields", "msg", "level"}
    if datefmt:
        keys.add("@timestamp")
    if raw["exc_info"]:
        keys.add("stackTrace")
    check(set(got) == keys, "keys of the JSON record", got=sorted(got))
    msg = str(raw["msg"])
    if raw["args"]:
        msg = msg % raw["args"]
    check(got["msg"] == msg, "message is not the record's",
          got=got["msg"][:200], want=msg[:200])
    want = LEVELS.get(raw["levelno"], {raw["levelname"].lower()})
    check(got["level"] in want, "level is not the record's",
          got=got["level"], want=sorted(map(str, want)))
    if raw["exc_info"]:
        text = "\n".join(traceback.format_exception(*raw["exc_info"]))
        check(got["stackTrace"] == text, "stack trace is not the exception's",
              got=got["stackTrace"][-200:])
    if datefmt == "%s":
        check(got["@timestamp"] == raw["created"], "timestamp is wrong",
              got=got["@timestamp"])
    elif datefmt:
        text = time.strftime(datefmt, time.localtime(raw["created"]))
        check(got["@timestamp"] == text, "timestamp is wrong",
              got=got["@timestamp"], want=text)
    fields = got["@fields"]
    check(bool(fields.pop("errno")) == bool(raw["exc_info"]),
          "errno does not tell an exception")
    for source, name in MAPPED.items():
        v = raw[source]
        if v is None and source in ("lineno", "process"):
            fields.pop(name, None)
            continue
        want = v if source in ("lineno", "process") else str(v)
        check(name in fields and fields.pop(name) == want,
              f"field {name} is not the record's", want=want)
    args = raw["args"] or ()
    if isinstance(args, dict):
        for name in [n for n in fields if re.fullmatch(r"argument_\d+", n)]:
            del fields[name]
    else:
        for i, arg in enumerate(args):
            check(fields.pop(f"argument_{i}", None) == str(arg),
                  "argument is not the record's", n=i)
    for name, v in raw.items():
        if name in MAPPED or name == "args" or name[0] == "_" or v is None:
            continue
        if name in MAPPED.values() or name == "errno":
            continue
        check(name in fields, "field of the record is missing", name=name,
              value=repr(v)[:80])
        have, want = fields.pop(name), model_value(v)
        check(have == want, "field is not the record's", name=name,
              got=repr(have)[:200], want=repr(want)[:200])
    check(not fields, "unknown fields", extra=sorted(fields))


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.rows = []

    def emit(self, record):
        self.rows.append((dict(record.__dict__), record))


def reserved():
    return {"message", "asctime"} | set(
        logging.makeLogRecord({}).__dict__)


def emit_one(rng, logger, n):
    """Log one random record, returns its shape."""
    style = rng.choice(["plain", "args", "args", "dict", "object", "bare"])
    text = rng.choice(TEXTS)
    msg, args = text, ()
    if style == "args":
        args = tuple(value(rng) for _ in range(rng.randint(1, 3)))
        args = tuple(1 if isinstance(a, dict) and len(args) == 1 else a
                     for a in args)
        msg = text.replace("%", "%%") + " %s" * len(args)
    elif style == "dict":
        args = ({"a": value(rng), "b": 2},)
        msg = text.replace("%", "%%") + " %(a)s %(b)d"
    elif style == "object":
        msg = rng.choice([Odd(1), 5, None, ("x", 1), Boom("x"), b"bytes", {}])
    extra = {}
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        key = rng.choice([
            "user", "request", "ключ", "with space", "a\"b", "pid", "errno",
            "code_line", "argument_0x", "_hidden", "level", "@fields",
            "newline\nkey", "identifier", "stackTrace", "x" * 100, "status",
        ])
        extra[key] = value(rng)
    if rng.random() < 0.03:
        extra.update({f"many{i}": i for i in range(rng.choice([50, 300]))})
    extra = {k: v for k, v in extra.items() if k not in reserved()}
    level = rng.choice([10, 20, 30, 40, 50, 20, 5, 25, 35, 1, 99])
    exc = rng.choice([None, None, "active", "given", "idle"])
    kw = dict(extra=extra or None, stack_info=rng.random() < 0.1)
    if exc == "active":
        try:
            try:
                raise Boom(rng.choice(TEXTS))
            except Boom as e:
                raise KeyError("second") from e
        except KeyError:
            logger.log(level, msg, *args, exc_info=True, **kw)
    elif exc == "given":
        logger.log(level, msg, *args, exc_info=Boom(n), **kw)
    elif exc == "idle":
        logger.log(level, msg, *args, exc_info=True, **kw)
    else:
        logger.log(level, msg, *args, **kw)
    return (style, exc, level, len(extra))


class Stream(io.StringIO):
    """Like a file: another thread may write in the middle of a record."""


def records(case):
    rng = case.rng
    datefmt = rng.choice([None, "%s", "%Y-%m-%d %H:%M:%S"])
    count = rng.randint(5, 25)
    bare = rng.choice([None, None, None, "logProcesses", "logThreads",
                       "logMultiprocessing", "_srcfile"])
    stream = Stream()
    handler = json_handler(stream=stream, date_format=datefmt)
    errors = []
    handler.handleError = lambda record: errors.append(
        (sys.exc_info()[0].__name__, str(sys.exc_info()[1])[:200]))
    before, after = Capture(), Capture()
    name = rng.choice(["vf.json", "", "имя", 'na"me'])
    logger = logging.Logger(name, level=1)
    for h in (before, handler, after):
        logger.addHandler(h)
    if bare:
        old = getattr(logging, bare)
        setattr(logging, bare, None if bare == "_srcfile" else False)
    shapes = []
    logging.addLevelName(35, "Notice\"X")
    try:
        for n in range(count):
            shapes.append(emit_one(rng, logger, n))
    finally:
        if bare:
            setattr(logging, bare, old)
    case.describe(datefmt=datefmt, bare=bare, shapes=shapes, name=name)
    case.check(not errors, "record is lost", errors=errors[:2],
               shapes=shapes[:20], bare=bare)
    text = stream.getvalue()
    lines = text.split("\n")
    case.check(lines.pop() == "" and len(lines) == count,
               "not exactly one line per record", lines=len(lines),
               count=count)
    for line, (raw, record), (raw2, record2) in zip(
            lines, before.rows, after.rows):
        try:
            got = json.loads(line)
        except ValueError as e:
            case.fail("line is not JSON", line=line[:300], exc=str(e))
        case.check(record is record2 and raw.keys() == raw2.keys() and
                   all(raw[k] is raw2[k] for k in raw),
                   "formatter changes the record")
        model_check(case, got, raw, record, datefmt)
        case.event("record")
        case.trace(sorted(got))


def threads(case):
    """Records of many threads do not mix, custom dumps get them all."""
    rng = case.rng
    nthreads, per = rng.randint(2, 5), rng.randint(5, 40)
    custom = rng.random() < 0.4
    case.describe(nthreads=nthreads, per=per, custom=custom)
    stream = Stream()
    payloads = []

    def dumps(obj):
        payloads.append(obj)
        return "custom:" + str(len(payloads))

    handler = json_handler(stream=stream)
    if custom:
        handler = logging.StreamHandler(stream)
        handler.setFormatter(JSONLogFormatter(dumps=dumps))
    logger = logging.Logger("vf")
    logger.addHandler(handler)

    def run(t):
        for i in range(per):
            logger.info("m %d %d", t, i, extra={"t": t, "odd": Odd(i)})

    ts = [threading.Thread(target=run, args=(t,), name=f"T{t}")
          for t in range(nthreads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    lines = stream.getvalue().split("\n")
    case.check(lines.pop() == "" and len(lines) == nthreads * per,
               "not exactly one line per record", lines=len(lines))
    if custom:
        case.check(lines == [f"custom:{i + 1}" for i in range(len(lines))],
                   "custom dumps is not used", lines=lines[:3])
        rows = payloads
    else:
        rows = [json.loads(line) for line in lines]
    for t in range(nthreads):
        mine = [r for r in rows if r["@fields"]["t"] == t]
        case.check([r["msg"] for r in mine] ==
                   [f"m {t} {i}" for i in range(per)],
                   "records of a thread are lost or reordered", t=t)
        for r in mine:
            case.check(r["@fields"]["thread_name"] == f"T{t}",
                       "thread name is another's", got=r["@fields"])
    case.event("record", len(rows))


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def formats(case):
    """Every format writes each record of a sufficient level once."""
    rng = case.rng
    fmt = rng.choice(["stream", "color", "json", "plain", "rich", "rich_tb",
                      "disabled"])
    level = rng.choice(["critical", "error", "warning", "info", "debug",
                        "notset", 10, 20, 30, 25])
    date = rng.choice([None, None, "%Y", "[%H:%M]"])
    with_user = rng.random() < 0.5
    hook = rng.random() < 0.5
    as_enum = rng.random() < 0.3
    logs = []
    for i in range(rng.randint(1, 12)):
        raw = f"msg-{i}-" + rng.choice([
            "x", "[red]y[/red]", "%s", "{z}", "[/b]", "é"])
        args = ()
        if raw.endswith("%s"):
            args = rng.choice([(), ("arg",), (5,)])
        logs.append((rng.choice([10, 20, 30, 40, 50, 25, 15]),
                     rng.choice(["a", "a.b", "vf"]),
                     raw % args if args else raw, raw, args,
                     rng.random() < 0.2))
    plan = dict(fmt=fmt, level=level, date=date, user=with_user, hook=hook,
                logs=logs, enum=as_enum)
    case.describe(**plan)
    root = logging.getLogger()
    saved = root.handlers[:], root.level, sys.stderr, sys.stdout, \
        sys.excepthook
    out, err = io.StringIO(), io.StringIO()
    user = Capture()
    wrapped = []

    def wrapper(h):
        wrapped.append(h)
        return h

    try:
        root.handlers[:] = []
        sys.stderr, sys.stdout = err, out
        kw = {}
        if date:
            kw["date_format"] = date
        if fmt.startswith("rich"):
            from rich.console import Console
            kw["console"] = Console(file=err, width=200)
        fmt_arg = aiomisc_log.LogFormat[fmt] if as_enum else fmt
        aiomisc_log.basic_config(
            level=level, log_format=fmt_arg, handler_wrapper=wrapper,
            handlers=[user] if with_user else [], **kw)
        case.check(len(wrapped) == (fmt != "disabled") + with_user,
                   "handlers are not wrapped once", plan=plan)
        for lvl, name, text, msg, args, exc in logs:
            try:
                raise Boom(text + "-exc")
            except Boom:
                logging.getLogger(name).log(lvl, msg, *args, exc_info=exc)
        if hook:
            try:
                raise Boom("unhandled-token")
            except Boom:
                sys.excepthook(*sys.exc_info())
        case.check(aiomisc_log.LOG_FORMAT.get() == fmt_arg
                   or aiomisc_log.LOG_FORMAT.get().name == fmt,
                   "LOG_FORMAT is not the configured", plan=plan)
    finally:
        root.handlers[:], root.level = saved[:2]
        root.setLevel(saved[1])
        sys.stderr, sys.stdout, sys.excepthook = saved[2:]
    num = getattr(logging, level.upper()) if isinstance(level, str) else level
    visible = [r for r in logs if r[0] >= num]
    hook = hook and num <= 40
    text = out.getvalue() if fmt == "json" else err.getvalue()
    other = err.getvalue() if fmt == "json" else out.getvalue()
    case.check(not other, "records are written to the other stream",
               plan=plan, other=other[:200])
    if fmt == "disabled":
        case.check(not text or not with_user,
                   "disabled format writes", plan=plan, text=text[:200])
    else:
        clean = ANSI.sub("", text)
        pos = 0
        for lvl, name, msg, _, _, exc in visible:
            boom = f"Boom: {msg}-exc"
            case.check((boom in clean) == exc if fmt != "json" else True,
                       "exception of a record", plan=plan, msg=msg, exc=exc,
                       text=clean[:900])
            rest = re.sub(r"Boom: [^\n]*-exc", "", clean)
            case.check(rest.count(msg) == 1 if fmt != "json" else True,
                       "record is not written exactly once", plan=plan,
                       msg=msg, text=clean[:500])
            if fmt != "json":
                at = clean.index(msg)
                case.check(at >= pos, "records are reordered", plan=plan)
                pos = at
        for r in logs:
            if r not in visible:
                case.check(r[2] not in clean, "record below the level is "
                           "written", plan=plan, msg=r[2], text=clean[:300])
        if hook:
            if fmt == "json":
                case.check(clean.count("unhandled-token") >= 1,
                           "unhandled exception is not written", plan=plan)
            else:
                case.check("unhandled-token" in clean,
                           "unhandled exception is not written", plan=plan,
                           text=clean[-300:])
        lines = clean.split("\n")[:-1]
        if fmt == "json":
            rows = [json.loads(x) for x in lines]
            rows = [r for r in rows if r["msg"].startswith("msg-")]
            case.check([r["msg"] for r in rows] == [r[2] for r in visible],
                       "records differ", plan=plan)
            case.check(all(("Boom" in r.get("stackTrace", "")) == v[5]
                           for r, v in zip(rows, visible)),
                       "exceptions differ", plan=plan, rows=rows[:3])
            case.check(all(("@timestamp" in r) == bool(date) for r in rows),
                       "timestamps", plan=plan)
        elif fmt == "plain":
            mine = [x for x in lines if x.startswith("msg-")]
            case.check(mine == [r[2] for r in visible],
                       "plain records differ", plan=plan, lines=lines[:20])
        elif fmt in ("stream", "color"):
            mine = [x for x in lines if "msg-" in x and "Boom" not in x]
            for line, (lvl, name, msg, *_) in zip(mine, visible):
                tail = f"{logging.getLevelName(lvl)}:{name}:"
                tail += msg if fmt == "stream" else " " + msg
                case.check(line.endswith(tail), "record lacks its level and "
                           "logger", plan=plan, line=line, tail=tail)
                year = time.strftime("%Y")
                if date == "%Y":
                    case.check(line.startswith(year), "record lacks its "
                               "date", plan=plan, line=line)
    if with_user:
        rows = [(r["levelno"], r["name"], r["msg"]) for r, _ in user.rows]
        expected = [(r[0], r[1], r[3]) for r in visible]
        case.check(rows[:len(expected)] == expected,
                   "user's handler got other records", plan=plan,
                   rows=rows[:20])
        tail = user.rows[len(expected):]
        case.check(len(tail) == hook and all(
            isinstance(r["exc_info"][1], Boom) for r, _ in tail),
            "unhandled exception is not given to the user's handler once",
            plan=plan)
    case.event("format")
    case.event(fmt)
    case.event("record", len(visible))


def journal_fields(data):
    """The native protocol of journald."""
    out, pos = {}, 0
    while pos < len(data):
        end = data.index(b"\n", pos)
        line = data[pos:end]
        if b"=" in line:
            key, val = line.split(b"=", 1)
            pos = end + 1
        else:
            key = line
            size = int.from_bytes(data[end + 1:end + 9], sys.byteorder)
            val = data[end + 9:end + 9 + size]
            pos = end + 10 + size
        out[key.decode()] = val.decode()
    return out


class Target:
    """A datagram socket in place of the system's one."""

    def __init__(self, case, family):
        self.sock = socket.socket(family, socket.SOCK_DGRAM)
        case.defer(self.sock.close)
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 22)
        self.path = case.tmp() + "/sock"
        self.sock.bind(self.path)
        self.sock.settimeout(0.2)
        self.got = []
        self.stop = False
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        while True:
            try:
                self.got.append(self.sock.recv(1 << 20))
            except TimeoutError:
                if self.stop:
                    return
            except OSError:
                return

    def finish(self):
        self.stop = True
        self.thread.join(10)
        return self.got


def targets(case):
    """syslog and journald formats, with sockets standing in for the
    system's ones."""
    import logging.handlers
    from pathlib import Path

    import logging_journald
    rng = case.rng
    fmt = rng.choice(["syslog", "journald"])
    level = rng.choice(["error", "info", "debug"])
    date = rng.random() < 0.2 and fmt == "syslog"
    logs = []
    for i in range(rng.randint(1, 15)):
        raw = f"msg-{i}-" + rng.choice(["x", "%s", "%d", "{z}", "é", "a=b"])
        if fmt == "journald" and rng.random() < 0.3:
            raw += "\ntwo"
        args = (5,) if "%" in raw and rng.random() < 0.7 else ()
        logs.append((rng.choice([10, 20, 30, 40, 50]),
                     rng.choice(["a", "a.b", "vf"]),
                     raw % args if args else raw, raw, args))
    plan = dict(fmt=fmt, level=level, date=date, logs=logs)
    case.describe(**plan)
    case.trace(fmt, level, *[r[3] for r in logs])
    target = Target(case, socket.AF_UNIX)
    root = logging.getLogger()
    saved = root.handlers[:], root.level, sys.stderr, sys.excepthook
    original = logging.handlers.SysLogHandler
    socket_path = logging_journald.JournaldTransport.SOCKET_PATH

    class SysLog(original):
        def __init__(self, address=None, *args, **kwargs):
            super().__init__(target.path, *args, **kwargs)

    err = io.StringIO()
    try:
        root.handlers[:] = []
        sys.stderr = err
        logging.handlers.SysLogHandler = SysLog
        for c in (logging_journald.JournaldTransport,
                  logging_journald.JournaldLogHandler):
            c.SOCKET_PATH = Path(target.path)
        aiomisc_log.basic_config(
            level=level, log_format=fmt,
            **({"date_format": "%Y"} if date else {}))
        for lvl, name, _, raw, args in logs:
            logging.getLogger(name).log(lvl, raw, *args)
        for h in root.handlers:
            h.close()
    finally:
        logging.handlers.SysLogHandler = original
        for c in (logging_journald.JournaldTransport,
                  logging_journald.JournaldLogHandler):
            c.SOCKET_PATH = socket_path
        root.handlers[:] = saved[0]
        root.setLevel(saved[1])
        sys.stderr, sys.excepthook = saved[2:]
    got = target.finish()
    num = getattr(logging, level.upper())
    visible = [r for r in logs if r[0] >= num]
    severity = {10: 7, 20: 6, 30: 4, 40: 3, 50: 2}
    if fmt == "syslog":
        want = [f"<{8 + severity[r[0]]}>{r[2]}\0".encode() for r in visible]
        case.check(got == want, "wrong syslog records", plan=plan, got=got)
    else:
        rows = [journal_fields(x) for x in got]
        case.check([r.get("MESSAGE") for r in rows] ==
                   [r[2] for r in visible], "wrong journald records",
                   plan=plan, got=rows[:5])
        case.check(all(
            r["LOGGER_NAME"] == v[1] and r["MESSAGE_RAW"] == v[3] and (
                v[0] == 50 or r["PRIORITY"] == str(severity[v[0]]))
            for r, v in zip(rows, visible)), "wrong journald fields",
            plan=plan, got=rows[:5])
    case.check(("date_format" in err.getvalue()) == date and
               "Traceback" not in err.getvalue(), "wrong warnings",
               plan=plan, err=err.getvalue()[-500:])
    case.event("format")
    case.event(fmt)
    case.event("record", len(visible))


DEFAULT = """
import os, sys
if sys.argv[1] == "journal":
    st = os.fstat(2)
    os.environ["JOURNAL_STREAM"] = f"{st.st_dev}:{st.st_ino}"
elif sys.argv[1] == "other":
    os.environ["JOURNAL_STREAM"] = "1:2"
import aiomisc_log
print(aiomisc_log.LogFormat.default(), aiomisc_log.LogLevel.default())
"""


def default(case):
    """The default format depends on what the standard error is."""
    rng = case.rng
    journal = rng.choice(["no", "journal", "other"])
    tty = rng.random() < 0.5
    case.trace(journal, tty)
    env = dict(os.environ, PYTHONPATH=os.environ.get("VF_REPO", "/repo"))
    env.pop("JOURNAL_STREAM", None)
    master = slave = None
    if tty:
        master, slave = os.openpty()
    try:
        r = subprocess.run(
            [sys.executable, "-c", DEFAULT, journal], env=env, timeout=60,
            stdout=subprocess.PIPE, stderr=slave if tty else subprocess.PIPE,
            text=True, cwd=case.tmp())
    finally:
        if tty:
            os.close(master)
            os.close(slave)
    want = "journald" if journal == "journal" else "rich" if tty else "plain"
    case.check(r.stdout == f"{want} info\n", "wrong default format",
               journal=journal, tty=tty, got=r.stdout, err=r.stderr)
    case.event("default")


SCENARIOS = [
    Scenario(targets, quick=60, timeout=60),
    Scenario(default, quick=12, timeout=80),
    Scenario(records, quick=2500),
    Scenario(threads, quick=150),
    Scenario(formats, quick=800),
]
