"""Bounded part: runs the real code (pkt-line driver and the built programs) on generated cases and
compares it with independent oracles written from the property statements. It is used to turn a
failed proof obligation into a concrete failing input and as a labelled bounded stand-in for what
the verifier cannot reach. Runs as an unprivileged user inside a scratch directory."""
import base64, hashlib, json, os, random, re, shutil, signal, stat, struct, subprocess, sys, time, calendar, pwd, itertools, tempfile

MAXDATA = 65516
DELIM = "D"
FLUSH = "F"

# ------------------------------------------------------------------ pkt-line oracle
def enc_pkt(p):
    if p == FLUSH:
        return b"0000"
    if p == DELIM:
        return b"0001"
    return b"%04x" % (len(p) + 4) + p

def dec_one(s):
    """('F'|'D'|'data', payload, consumed) or ('bad'|'trunc', None, 0)"""
    if len(s) < 4:
        return ("trunc", None, 0)
    h = s[:4]
    if any(c not in b"0123456789abcdef" for c in h):
        return ("bad", None, 0)
    n = int(h, 16)
    if n == 0:
        return (FLUSH, None, 4)
    if n == 1:
        return (DELIM, None, 4)
    if n in (2, 3) or n > 65520:
        return ("bad", None, 0)
    if len(s) < n:
        return ("trunc", None, 0)
    return ("data", s[4:n], n)

def dec_all(s):
    out, pos = [], 0
    while pos < len(s):
        k, d, n = dec_one(s[pos:pos + 65600])
        if k in ("bad", "trunc"):
            return out, k
        out.append(d if k == "data" else k)
        pos += n
    return out, None

def hx(b):
    return b.hex() if b else "-"

# ------------------------------------------------------------------ environment
class Env:
    def __init__(self, bins, scratch, seed, tier, deadline):
        self.bins, self.scratch, self.seed, self.tier = bins, scratch, seed, tier
        self.deadline = deadline
        self.n = 0
        self.drv = None

    def dir(self):
        self.n += 1
        d = os.path.join(self.scratch, "d%d" % self.n)
        os.makedirs(d)
        return d

    def driver(self, line):
        if self.drv is None:
            self.drv = subprocess.Popen([os.path.join(self.bins, "vdrv")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        raise NotImplementedError

    def drive(self, lines, timeout=60):
        """Runs many cases; a case that hangs or kills the process is reported as such."""
        p = subprocess.Popen([os.path.join(self.bins, "vdrv")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            out, _ = p.communicate("\n".join(lines) + "\n", timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            if len(lines) == 1:
                return ["HANG"]
        res = out.splitlines()
        if len(res) == len(lines):
            return res
        if len(lines) == 1:
            return ["CRASH"]
        # one of them hung or crashed: bisect
        h = len(lines) // 2
        return self.drive(lines[:h], max(5, timeout // 2)) + self.drive(lines[h:], max(5, timeout // 2))

    def environ(self, home):
        return {"HOME": home, "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C", "TZ": "UTC",
                "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_COUNT": "0", "RUST_BACKTRACE": "0"}

def b64(b):
    return base64.b64encode(b).decode()
def ub64(s):
    return base64.b64decode(s)

# ------------------------------------------------------------------ pkt-line cases
def run_pkt_read(env, pay):
    line = "R %s %d %d %s" % (hx(ub64(pay["stream"])), pay["max"], pay["intr"], ",".join(pay["ops"]))
    return judge_pkt_read(pay, env.drive([line])[0])

def judge_pkt_read(pay, got):
    s = ub64(pay["stream"])
    if got in ("PANIC", "HANG", "CRASH"):
        return [(["C07", "C23"] if "p" in pay["ops"] or "i" in pay["ops"] else ["C09", "C23"], "%s while decoding" % got)]
    bad = []
    parts = got.split(";")
    pos, pend = 0, b""      # next packet, leftover of the current one
    failed = False
    for op, r in zip(pay["ops"], parts):
        if op[0] == "p":
            # read_packet decodes the next packet of the stream, whatever read() left over
            if failed:
                break
            k, d, n = dec_one(s[pos:pos + 65600])
            if k == "data":
                want = "data %d %s" % (len(d), hx(d))
            elif k == FLUSH:
                want = "flush true"
            elif k == DELIM:
                want = "delim true"
            else:
                want = None
            if want is not None:
                if r != want:
                    bad.append((["C07"], "read_packet at %d: expected %s, got %s" % (pos, want[:60], r[:60])))
                    break
                pos += n
            else:
                exp = "BadPktlineHeader" if k == "bad" else "IOError UnexpectedEof"
                if not r.startswith("err ") or (k == "bad" and "BadPktlineHeader" not in r) or (k == "trunc" and "IOError UnexpectedEof" not in r):
                    bad.append((["C07"], "read_packet at %d: expected error %s, got %s" % (pos, exp, r[:80])))
                failed = True
        elif op[0] == "r":
            n = int(op[1:])
            if failed:
                break
            # payload available up to the next mark or defect
            avail, q, err = pend, pos, None
            while True:
                k, d, m = dec_one(s[q:q + 65600])
                if k == "data":
                    avail += d
                    q += m
                elif k in ("bad", "trunc"):
                    err = k
                    break
                else:
                    break
                if len(avail) > n + 70000:
                    break
            if r.startswith("ok "):
                d = b"" if r[3:] == "-" else bytes.fromhex(r[3:])
                if not avail.startswith(d):
                    # more than what comes before a malformed header: the header was taken for good
                    bad.append((["C09", "C07"] if err == "bad" and len(d) > len(avail) else ["C09"], "read(%d) gave bytes which are not the next ones: %s" % (n, r[:80])))
                    break
                if n > 0 and not d and (avail or err):
                    bad.append((["C09", "C07"] if not avail else ["C09"], "read(%d) reported end of data too early" % n))
                    break
                # account
                take = len(d)
                use = min(take, len(pend))
                pend = pend[use:]
                take -= use
                while take > 0:
                    k, dd, m = dec_one(s[pos:pos + 65600])
                    pos += m
                    u = min(take, len(dd))
                    pend = dd[u:]
                    take -= u
                if n > 0 and not d:
                    # the mark is consumed, along with empty packets before it
                    while True:
                        k, dd, m = dec_one(s[pos:pos + 65600])
                        pos += m
                        if k != "data":
                            break
            elif r.startswith("err"):
                if avail or not err or n == 0:
                    bad.append((["C09"], "read(%d) failed although data was available: %s" % (n, r)))
                failed = True
            else:
                bad.append((["C09"], "read(%d): %s" % (n, r)))
                break
        elif op[0] == "i":
            want = []
            while True:
                k, d, m = dec_one(s[pos:pos + 65600])
                if k == "bad":
                    want.append("err:BadPktlineHeader")
                    break
                if k == "trunc":
                    break
                want.append("data:" + hx(d) if k == "data" else "flush" if k == FLUSH else "delim")
                pos += m
                if len(want) >= 60:
                    break
            items = r[6:].split("/") if r[6:] else []
            if "err:BadPktlineHeader" in want:
                items = items[:len(want)]
            if items != want:
                bad.append((["C07"], "iteration: expected %s, got %s" % ("/".join(want)[:80], r[6:][:80])))
            return bad
    if not bad and not failed and not any(o[0] == "r" for o in pay["ops"]):
        m = re.search(r"pos (\d+)$", got)
        if m and int(m.group(1)) != pos:
            bad.append((["C07"], "consumed %s bytes, expected %d" % (m.group(1), pos)))
    return bad

def run_pkt_write(env, pay):
    line = "W %d %d %s" % (pay["max"], pay["lim"], ",".join(o[0] + hx(ub64(o[1:])) for o in pay["ops"]))
    return judge_pkt_write(pay, env.drive([line])[0])

def judge_pkt_write(pay, got):
    if got in ("PANIC", "HANG", "CRASH"):
        return [(["C08", "C23"], "%s while encoding" % got)]
    bad = []
    parts = got.split(";")
    m = re.match(r"out (\S+) (\S+)$", parts[-1])
    out = b"" if m.group(1) == "-" else bytes.fromhex(m.group(1))
    limited = pay["lim"] < 10**9
    pos = 0
    last = None
    for op, r in zip(pay["ops"], parts):
        d = ub64(op[1:])
        last = op[0]
        if op[0] in "wa":
            if op[0] == "w" and r.startswith("ok ") :
                n = int(r[3:])
                if n > len(d) or (len(d) > 0 and n == 0):
                    bad.append((["C08"], "write of %d bytes reported %d" % (len(d), n)))
                    break
                d = d[:n]
            elif not r.startswith("ok"):
                if not limited:
                    bad.append((["C08"], "write of %d bytes failed: %s" % (len(d), r)))
                break
            acc = b""
            while len(acc) < len(d):
                k, dd, m2 = dec_one(out[pos:pos + 65600])
                if k != "data" or not dd:
                    bad.append((["C08"], "output at %d is not a data packet of 1..65516 bytes (%s)" % (pos, k)))
                    return bad
                acc += dd
                pos += m2
            if acc != d:
                bad.append((["C08"], "payloads do not concatenate to the data written (%d bytes for %d)" % (len(acc), len(d))))
                return bad
        elif op[0] == "d":
            if r.startswith("ok"):
                if len(d) > MAXDATA:
                    bad.append((["C08"], "a payload of %d bytes was accepted" % len(d)))
                    return bad
                e = enc_pkt(d)
                if out[pos:pos + len(e)] != e:
                    bad.append((["C08"], "data packet encoded as %r..." % out[pos:pos + 12]))
                    return bad
                pos += len(e)
            else:
                if len(d) <= MAXDATA and not limited:
                    bad.append((["C08"], "data packet of %d bytes refused: %s" % (len(d), r)))
                if limited:
                    break
        elif op[0] in "fs":
            if r.startswith("ok"):
                e = b"0000" if op[0] == "f" else b"0001"
                if out[pos:pos + 4] != e:
                    bad.append((["C08"], "mark encoded as %r" % out[pos:pos + 4]))
                    return bad
                pos += 4
            else:
                if not limited:
                    bad.append((["C08"], "mark refused: %s" % r))
                break
    else:
        if not limited and pos != len(out):
            bad.append((["C08"], "%d extra bytes written" % (len(out) - pos)))
        if last == "f" and m.group(2) == "true" and not limited:
            bad.append((["C05"], "a flush packet is not flushed to the underlying stream"))
    return bad

# ------------------------------------------------------------------ server sessions
OIDRE = re.compile(rb"\A[0-9a-f]{64}\Z")
INTRE = re.compile(rb"\A\+?[0-9]+\Z")

def parse_int(b, mx=2**64 - 1):
    if not INTRE.match(b):
        return None
    v = int(b)
    return v if v <= mx else None

def lock_id(path):
    return hashlib.sha256(b"v1:" + path).hexdigest()

def rfc3339(t):
    # proleptic Gregorian calendar in UTC
    days, secs = divmod(t, 86400)
    # civil from days
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    if m <= 2:
        y += 1
    ys = "%04d" % y if 0 <= y <= 9999 else ("%+05d" % y)
    return ("%s-%02d-%02dT%02d:%02d:%02d+00:00" % (ys, m, d, secs // 3600, secs % 3600 // 60, secs % 60)).encode()

TMIN, TMAX = -8334632851200, 8210298412799   # chrono's range of representable timestamps

def parse_record(data):
    v = data.split(b":", 2)
    if len(v) != 3 or v[0] != b"v1":
        return None
    if not re.match(rb"\A[+-]?[0-9]+\Z", v[1]):
        return None
    t = int(v[1])
    if not (-2**63 <= t < 2**63) or not (TMIN <= t <= TMAX):
        return None
    return (t, v[2])

def user_of(uid):
    try:
        return pwd.getpwuid(uid).pw_name.encode()
    except KeyError:
        return b"uid %d" % uid

class Fail:
    """a failure answer with one of these codes"""
    def __init__(self, codes, why):
        self.codes, self.why = set(codes), why

class Model:
    """What the properties say about each request; `locks` maps lock id to record bytes as stored."""
    def __init__(self, mode, objects, lockfiles, uid, now):
        self.mode, self.objects, self.lockfiles, self.uid, self.now = mode, dict(objects), dict(lockfiles), uid, now
        self.owners = {}

    def owner(self, i):
        return user_of(self.owners.get(i, self.uid))

    # -- argument lists
    def args(self, items):
        res, codes = {}, set()
        for it in items:
            if b"=" not in it:
                codes.add(500)
                continue
            if not it.endswith(b"\n"):
                codes.add(500)
                continue
            k, v = it[:-1].split(b"=", 1) if b"=" in it[:-1] else (it[:-1], b"")
            if k in res:
                codes.add(400)
                continue
            res[k] = v
        if codes:
            return None, Fail(codes, "arguments")
        return res, None

    def step(self, pkts):
        """Expected outcome of one request: ('ok', code, args, data) with data a list of lines or bytes,
        or a Fail; None ends the session."""
        if not pkts or pkts[0] == DELIM or pkts[0] == b"":
            return Fail([400], "no command")
        line = pkts[0]
        if line.endswith(b"\n"):
            line = line[:-1]
        words = line.split(b" ")
        cmd, arg = words[0], (words[1] if len(words) > 1 else None)
        rest = pkts[1:]
        up = self.mode == "upload"
        if cmd == b"version":
            if arg == b"1":
                return ("ok", 200, [], None)
            return Fail([400], "unknown version")
        if cmd == b"batch" and arg is None:
            return self.batch(rest, up)
        if cmd == b"put-object" and arg is not None:
            return self.put(arg, rest) if up else Fail([403], "not allowed")
        if cmd == b"verify-object" and arg is not None:
            return self.verify(arg, rest) if up else Fail([403], "not allowed")
        if cmd == b"get-object" and arg is not None:
            return self.get(arg, rest) if not up else Fail([403], "not allowed")
        if cmd == b"lock" and arg is None and up:
            return self.lock(rest)
        if cmd == b"list-lock" and arg is None:
            return self.list(rest, up)
        if cmd == b"unlock" and arg is not None and up:
            return self.unlock(arg)
        if cmd == b"quit" and arg is None:
            return None
        return Fail([400], "unknown command")

    def flatrest(self, rest):
        return [b"" if p == DELIM else p for p in rest]

    def merge(self, *fails):
        codes = set()
        for f in fails:
            if f is not None:
                codes |= f.codes
        return Fail(codes, " / ".join(f.why for f in fails if f is not None)) if codes else None

    def batch(self, rest, up):
        if DELIM not in rest:
            return Fail([400], "no delimiter")
        i = rest.index(DELIM)
        args, f1 = self.args(rest[:i])
        lines = self.flatrest(rest[i + 1:])
        f2 = None
        if args is not None and args.get(b"hash-algo", b"sha256") != b"sha256":
            f2 = Fail([400], "hash algorithm")
        f3 = None
        out = []
        for l in lines:
            if not l.endswith(b"\n"):
                f3 = self.merge(f3, Fail([400], "line without newline"))
                continue
            p = l[:-1].split(b" ")
            if len(p) != 2:
                f3 = self.merge(f3, Fail(range(400, 600), "wrong number of fields"))
                continue
            if not OIDRE.match(p[0]):
                f3 = self.merge(f3, Fail([400], "bad oid"))
            size = parse_int(p[1])
            if size is None:
                f3 = self.merge(f3, Fail([400], "bad size"))
            elif OIDRE.match(p[0]):
                o = p[0].decode()
                if o in self.objects:
                    out.append(b"%s %d %s\n" % (p[0], len(self.objects[o]), b"noop" if up else b"download"))
                else:
                    out.append(b"%s %d %s\n" % (p[0], size, b"upload" if up else b"noop"))
        f = self.merge(f1, f2, f3)
        return f or ("ok", 200, [], out)

    def put(self, arg, rest):
        f0 = None if OIDRE.match(arg) else Fail([400], "bad oid")
        if DELIM not in rest:
            return self.merge(f0, Fail([400], "no delimiter"))
        i = rest.index(DELIM)
        args, f1 = self.args(rest[:i])
        f2 = None
        size = None
        if args is not None:
            if b"size" not in args:
                f2 = Fail([400], "no size")
            else:
                size = parse_int(args[b"size"])
                if size is None:
                    f2 = Fail([400], "bad size")
        # data up to the end mark
        data = b""
        for p in rest[i + 1:]:
            if p == DELIM:
                # data ends here; anything after is part of the request but not of the data
                break
            data += p
        f3 = None
        if size is not None and len(data) != size:
            f3 = Fail([400], "size mismatch")
        elif f0 is None and hashlib.sha256(data).hexdigest().encode() != arg:
            f3 = Fail([400], "digest mismatch")
        f = self.merge(f0, f1, f2, f3)
        if f:
            return f
        self.objects[arg.decode()] = data
        return ("ok", 200, [], None)

    def verify(self, arg, rest):
        args, f1 = self.args(self.flatrest(rest))
        f0 = None if OIDRE.match(arg) else Fail([400], "bad oid")
        f2 = None
        if args is not None:
            if b"size" not in args:
                f2 = Fail([400], "no size")
            else:
                size = parse_int(args[b"size"])
                if size is None:
                    f2 = Fail([400], "bad size")
        f = self.merge(f0, f1, f2)
        if f:
            return f
        o = arg.decode()
        if o not in self.objects:
            return Fail([404], "not found")
        if len(self.objects[o]) != size:
            return Fail([409], "mismatch")
        return ("ok", 200, [], None)

    def get(self, arg, rest):
        args, f1 = self.args(self.flatrest(rest))
        f0 = None if OIDRE.match(arg) else Fail([400], "bad oid")
        f = self.merge(f0, f1)
        if f:
            return f
        o = arg.decode()
        if o not in self.objects:
            return Fail([404], "not found")
        return ("ok", 200, [b"size=%d\n" % len(self.objects[o])], self.objects[o])

    def valid_locks(self):
        res = {}
        for i, data in self.lockfiles.items():
            if not OIDRE.match(i):
                continue
            r = parse_record(data)
            if r is not None:
                res[i] = r
        return res

    def lock_args(self, i, t, path):
        return [b"id=" + i + b"\n", b"path=" + path + b"\n", b"locked-at=" + (rfc3339(t) if t is not None else b"NOW") + b"\n", b"ownername=" + self.owner(i) + b"\n"]

    def lock(self, rest):
        args, f1 = self.args(self.flatrest(rest))
        if f1:
            return f1
        if b"path" not in args or b"refname" not in args:
            return Fail([400], "path and refname")
        path = args[b"path"]
        i = lock_id(path).encode()
        if i in self.lockfiles:
            r = parse_record(self.lockfiles[i])
            if r is None or r[1] != path:
                return Fail(range(400, 600), "corrupt lock")
            return ("fail", 409, self.lock_args(i, r[0], path))
        self.lockfiles[i] = b"v1:NOW:" + path
        return ("ok", 201, self.lock_args(i, None, path), None)

    def spec(self, i, t, path, up):
        v = [b"lock " + i + b"\n", b"path " + i + b" " + path + b"\n", b"locked-at " + i + b" " + (rfc3339(t) if t is not None else b"NOW") + b"\n", b"ownername " + i + b" " + self.owner(i) + b"\n"]
        if up:
            v.append(b"owner " + i + b" " + (b"ours" if self.owner(i) == user_of(self.uid) else b"theirs") + b"\n")
        return v

    def rec(self, i):
        d = self.lockfiles.get(i)
        if d is None:
            return None
        if d.startswith(b"v1:NOW:"):
            return (None, d[7:])
        return parse_record(d)

    def list(self, rest, up):
        args, f1 = self.args(self.flatrest(rest))
        if f1:
            return f1
        limit = 100
        if b"limit" in args:
            limit = parse_int(args[b"limit"])
            if limit is None:
                return Fail([400], "bad limit")
            if limit == 0:
                return Fail([400], "limit 0")
            limit = min(limit, 100)
        cursor = args.get(b"cursor")
        if b"path" in args:
            path = args[b"path"]
            i = lock_id(path).encode()
            if i not in self.lockfiles:
                return Fail([404], "not found")
            r = self.rec(i)
            if r is None or r[1] != path:
                return Fail(range(400, 600), "corrupt lock")
            if cursor is not None and i < cursor:
                return Fail([404], "before cursor")
            return ("ok", 200, [], self.spec(i, r[0], path, up))
        ids = sorted(i for i in self.lockfiles if OIDRE.match(i) and self.rec(i) is not None)
        if cursor is not None:
            ids = [i for i in ids if not (self.reported(i) < cursor)]
        page = ids[:limit]
        lines = []
        for i in page:
            r = self.rec(i)
            lines += self.spec(lock_id(r[1]).encode(), r[0], r[1], up) if False else self.spec(i, r[0], r[1], up)
        nxt = [b"next-cursor=" + ids[limit] + b"\n"] if len(ids) > limit else []
        return ("ok", 200, nxt, lines)

    def reported(self, i):
        return i

    def unlock(self, arg):
        try:
            arg.decode("utf-8")
        except UnicodeDecodeError:
            return Fail([400], "not UTF-8")
        if not OIDRE.match(arg) or arg not in self.lockfiles:
            return Fail([404], "no such lock")
        r = self.rec(arg)
        if r is None:
            return Fail(range(400, 600), "corrupt lock")
        res = ("ok", 200, self.lock_args(arg, r[0], r[1]), None)
        del self.lockfiles[arg]
        return res

CMDPROP = {b"put-object": "C01", b"get-object": "C10", b"batch": "C11", b"verify-object": "C13", b"lock": "C14", b"unlock": "C15", b"list-lock": "C16"}

def command(pkts):
    if not pkts or pkts[0] == DELIM:
        return b""
    return pkts[0].rstrip(b"\n").split(b" ")[0]

def snapshot(top):
    """{relative path: (kind, bytes or link target, mode)} of everything below top"""
    res = {}
    for dp, dn, fn in os.walk(top):
        for n in dn + fn:
            p = os.path.join(dp, n)
            st = os.lstat(p)
            rel = os.path.relpath(os.fsencode(p), os.fsencode(top))
            if stat.S_ISDIR(st.st_mode):
                res[rel] = ("dir", None, stat.S_IMODE(st.st_mode))
            elif stat.S_ISLNK(st.st_mode):
                res[rel] = ("link", os.readlink(os.fsencode(p)), 0)
            else:
                try:
                    with open(p, "rb") as f:
                        res[rel] = ("file", f.read(), stat.S_IMODE(st.st_mode))
                except OSError:
                    res[rel] = ("file", b"?unreadable", stat.S_IMODE(st.st_mode))
    return res

TEMPLATE = {}
def make_repo(env, config=None):
    d = env.dir()
    r = os.path.join(d, "repo", ".git")
    for s in ("objects/info", "objects/pack", "refs/heads", "refs/tags"):
        os.makedirs(os.path.join(r, s))
    open(os.path.join(r, "HEAD"), "w").write("ref: refs/heads/main\n")
    cfg = "[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = false\n"
    if config is not None:
        cfg += "\tsharedRepository%s\n" % (" = " + config if config != "" else "")
    open(os.path.join(r, "config"), "w").write(cfg)
    return d, os.path.join(d, "repo"), os.path.join(r, "lfs")

def put_store(lfs, objects, lockfiles, foreign=None, pool=None):
    for o, data in objects.items():
        p = os.path.join(lfs, "objects", o[:2], o[2:4])
        os.makedirs(p, exist_ok=True)
        open(os.path.join(p, o), "wb").write(data)
    if lockfiles:
        os.makedirs(os.path.join(lfs, "locks"), exist_ok=True)
    for n, data in lockfiles.items():
        p = os.path.join(os.fsencode(lfs), b"locks", n)
        if foreign and n in foreign and pool:
            os.rename(pool.pop(), p)
        with open(p, "wb") as f:
            f.write(data)

def frame(reqs):
    out = b""
    for r in reqs:
        for p in r:
            out += enc_pkt(p)
        out += b"0000"
    return out

def unpack_reqs(rs):
    return [[p if p in (DELIM,) else ub64(p[1:]) for p in r] for r in rs]
def pack_reqs(rs):
    return [[p if p == DELIM else "b" + b64(p) for p in r] for r in rs]

def serve(env, repo, mode, data, umask=0o022, timeout=20, extra=None, prefix=None, started=None):
    pre = prefix or []
    p = subprocess.Popen(pre + [os.path.join(env.bins, "git-lfs-transfer"), repo, mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=dict(env.environ(env.scratch), **(extra or {})), cwd=os.path.dirname(repo), umask=umask)
    if started:
        started(p.pid)
    try:
        out, err = p.communicate(data, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return None, out, err
    return p.returncode, out, err

def split_responses(out):
    """[[packets...]...] without the closing flush; plus a complaint"""
    pkts, err = dec_all(out)
    res, cur = [], []
    for p in pkts:
        if p == FLUSH:
            res.append(cur)
            cur = []
        else:
            cur.append(p)
    if err:
        return res, "output is not a sequence of packets (%s)" % err
    if cur:
        return res, "last response is not ended by a flush packet"
    return res, None

def parse_response(r):
    if not r or r[0] == DELIM:
        return None
    m = re.match(rb"\Astatus ([0-9]{3})\n\Z", r[0])
    if not m:
        return None
    if DELIM in r:
        i = r.index(DELIM)
        if DELIM in r[i + 1:]:
            return None
        return (int(m.group(1)), r[1:i], r[i + 1:])
    return (int(m.group(1)), r[1:], [])

def now_match(want, got, t0, t1):
    """equality up to a time stamp produced during the session"""
    if b"NOW\n" not in want:
        return want == got
    pre = want[:want.index(b"NOW\n")]
    return got.startswith(pre) and got.endswith(b"\n") and any(got == pre + rfc3339(t) + b"\n" for t in range(t0 - 1, t1 + 2))

def run_session(env, pay):
    """pay: mode, objects {oid: b64}, locks {name b64: b64}, reqs, raw (bytes sent after them), umask, config,
    foreign [names]"""
    bad = []
    mode = pay["mode"]
    objects = {o: ub64(v) for o, v in pay.get("objects", {}).items()}
    lockfiles = {ub64(k): ub64(v) for k, v in pay.get("locks", {}).items()}
    foreign = {ub64(k): u for k, u in pay.get("foreign", {}).items()}
    reqs = unpack_reqs(pay.get("reqs", []))
    raw = ub64(pay.get("raw", ""))
    umask = pay.get("umask", 0o022)
    config = pay.get("config")
    d, repo, lfs = make_repo(env, config)
    outside = os.path.join(d, "outside")
    os.makedirs(outside)
    open(os.path.join(outside, "secret"), "wb").write(b"v1:0:secret")
    put_store(lfs, objects, {k: v for k, v in lockfiles.items() if k not in foreign})
    usedforeign = {}
    for k, u in foreign.items():
        p = env_pool(env, u)
        if p is None:
            put_store(lfs, {}, {k: lockfiles[k]})
        else:
            os.makedirs(os.path.join(lfs, "locks"), exist_ok=True)
            q = os.path.join(os.fsencode(lfs), b"locks", k)
            os.rename(p, q)
            with open(q, "wb") as f:
                f.write(lockfiles[k])
            usedforeign[k] = u
    for rel, kind in pay.get("extra_dirs", []):
        os.makedirs(os.path.join(lfs, rel), exist_ok=True)
    before = snapshot(d)
    t0 = int(time.time())
    own = []
    def stale(pid):
        # temporary files left behind by a killed server that had the process id of this one
        for i, v in pay.get("owntmp", []):
            own.append(b"%s.%d.lock" % (ub64(i), pid))
            os.makedirs(os.path.join(lfs, "locks"), exist_ok=True)
            with open(os.path.join(os.fsencode(lfs), b"locks", own[-1]), "wb") as f:
                f.write(ub64(v))
    rc, out, err = serve(env, repo, mode, frame(reqs) + raw, umask, started=stale)
    t1 = int(time.time())
    after = snapshot(d)
    for n in own:
        after.pop(b"repo/.git/lfs/locks/" + n, None)
    try:
        shutil.rmtree(d)
    except OSError:
        pass
    if rc is None:
        return [(["C05", "C23"], "server hangs")]
    if rc not in (0, 1, 2, 3, 4) or rc < 0 or b"panicked" in err:
        who = ["C23"]
        return [(who + ["C05"], "server crashed: exit %s, %s" % (rc, err[-200:].decode("latin1")))]
    if mode not in ("upload", "download"):
        # an operation name which is neither: nothing may be granted and nothing may change
        resp, _ = split_responses(out)
        for r in resp:
            pr = parse_response(r)
            if pr is not None and pr[0] < 400:
                bad.append((["C04"], "operation %r: a request was answered %d" % (mode, pr[0])))
        for k in set(before) | set(after):
            x, y = before.get(k), after.get(k)
            if x != y and (x or y)[0] == "file" and (b"/lfs/objects/" in k or b"/lfs/locks/" in k):
                bad.append((["C04"], "operation %r: %r changed" % (mode, k)))
        return bad
    m = Model(mode, objects, lockfiles, os.getuid(), None)
    m.owners = usedforeign
    resp, complaint = split_responses(out)
    if not resp or resp[0] != [b"version=1\n"]:
        bad.append((["C05"], "no capability announcement first"))
    resp = resp[1:]
    if complaint:
        bad.append((["C05"], complaint))
    # expected
    n = 0
    quit_at = None
    wrong_state = False
    failed_put = {}
    for i, r in enumerate(reqs):
        cmd = command(r)
        exp = m.step(r)
        base = CMDPROP.get(cmd)
        if i >= len(resp):
            bad.append((["C05"], "request %d (%r) got no response" % (i, r[:1])))
            wrong_state = True
            break
        pr = parse_response(resp[i])
        if pr is None:
            bad.append((["C05"], "response %d is malformed: %r" % (i, resp[i][:3])))
            wrong_state = True
            break
        code, args, data = pr
        tags = []
        if exp is None:
            quit_at = i
            if code != 200:
                bad.append((["C05", "C06"], "quit answered %d" % code))
            break
        if isinstance(exp, Fail):
            if code not in exp.codes:
                tags = ["C06"]
                if 403 in exp.codes or (exp.why == "unknown command"):
                    tags.append("C04")
                if base:
                    tags.append(base)
                if "arguments" in exp.why or "integer" in exp.why or "bad size" in exp.why or "bad limit" in exp.why:
                    tags.append("C12")
                if "before cursor" in exp.why:
                    tags.append("C16")
                if cmd == b"put-object" and code == 200:
                    tags += ["C01", "C02"]
                if "bad oid" in exp.why or cmd in (b"unlock",):
                    tags.append("C03")
                if code < 400:
                    wrong_state = True
                bad.append((tags, "request %d (%r): expected %s (%s), got %d %r" % (i, r[:2], sorted(exp.codes)[:4], exp.why, code, data[:1])))
            elif mode == "upload" and cmd == b"get-object" and len(b"".join(x for x in data if x != DELIM)) > 100:
                bad.append((["C04"], "object data sent in upload mode"))
            continue
        if exp[0] == "fail":
            if code != exp[1]:
                bad.append((["C06", base], "request %d (%r): expected %d, got %d" % (i, r[:2], exp[1], code)))
                wrong_state = code < 400
            elif len(args) != len(exp[2]) or not all(now_match(w, g, t0, t1) for w, g in zip(exp[2], args)):
                bad.append((["C14", "C17"], "conflict reports %r, expected %r" % (args, exp[2])))
            continue
        _, wcode, wargs, wdata = exp
        if code != wcode:
            tags = [base] if base else ["C05"]
            tags += ["C06", "C12"] if code >= 400 else ["C06"]
            if cmd == b"list-lock":
                tags.append("C17")
            bad.append((tags, "request %d (%r): expected %d, got %d %r" % (i, r[:2], wcode, code, data[:1])))
            wrong_state = True
            continue
        lockish = cmd in (b"lock", b"unlock", b"list-lock")
        if len(args) != len(wargs) or not all(now_match(w, g, t0, t1) for w, g in zip(wargs, args)):
            bad.append(([base or "C05"] + (["C17"] if cmd in (b"lock", b"unlock") else []) + (["C05"] if cmd in (b"put-object", b"verify-object", b"version") else []), "request %d (%r): arguments %r, expected %r" % (i, r[:2], args[:5], wargs[:5])))
        if isinstance(wdata, bytes):
            got = b"".join(data)
            if got != wdata:
                bad.append(([base or "C05"], "request %d (%r): %d bytes of data differ from the expected %d" % (i, r[:2], len(got), len(wdata))))
            if any(len(x) == 0 for x in data):
                bad.append((["C08"], "empty data packet in the answer"))
        elif wdata is not None:
            if len(data) != len(wdata) or not all(now_match(w, g, t0, t1) for w, g in zip(wdata, data)):
                tg = [base]
                if cmd == b"list-lock":
                    k = next((j for j, (w, g) in enumerate(zip(wdata, data)) if not now_match(w, g, t0, t1)), None)
                    if k is not None and len(data) == len(wdata):
                        w = wdata[k]
                        tg = ["C16"]
                        if not w.startswith(b"owner "):
                            tg.append("C17")
                    elif pay.get("corrupt"):
                        tg.append("C17")
                bad.append((tg, "request %d (%r): %d lines %r, expected %d lines %r" % (i, r[:2], len(data), first_diff(data, wdata), len(wdata), first_diff(wdata, data))))
        else:
            if any(x for x in data):
                bad.append((["C05"], "request %d (%r): unexpected data %r" % (i, r[:2], data[:2])))
    else:
        extra = len(resp) - len(reqs)
        if not raw and extra > 0:
            bad.append((["C05"], "%d more responses than requests" % extra))
    if quit_at is not None:
        if len(resp) != quit_at + 1:
            bad.append((["C05"], "%d responses after quit" % (len(resp) - quit_at - 1)))
        if rc != 0:
            bad.append((["C05", "C19"], "exit status %d after quit" % rc))
    elif not raw and rc != 0 and mode in ("upload", "download"):
        bad.append((["C05", "C19"], "exit status %d at the end of the requests: %r" % (rc, err[-200:])))
    if mode not in ("upload", "download"):
        if rc == 0:
            bad.append((["C04", "C19"], "operation %r accepted" % mode))
    if rc != 0 and err.count(b"\n") != 1 and rc in (1, 2):
        bad.append((["C19"], "exit status %d with diagnostics %r" % (rc, err[:200])))
    if rc == 0 and err:
        bad.append((["C19"], "exit status 0 with diagnostics %r" % err[:200]))
    # -- state
    if not wrong_state:
        bad += check_state(pay, m, before, after, t0, t1, quit_at, reqs, lockfiles)
    return bad

def first_diff(a, b):
    for x, y in itertools.zip_longest(a, b):
        if x != y:
            return x
    return a[:1]

def env_pool(env, u):
    d = os.path.join(env.scratch, "pool", str(u))
    try:
        n = sorted(os.listdir(d))
    except OSError:
        return None
    if not n:
        return None
    return os.path.join(d, n[0]).encode()

def check_state(pay, m, before, after, t0, t1, quit_at, reqs, lockfiles0):
    bad = []
    L = b"repo/.git/lfs/"
    want_obj = {L + b"objects/%s/%s/%s" % (o[:2].encode(), o[2:4].encode(), o.encode()): v for o, v in m.objects.items()}
    got_obj = {k: v[1] for k, v in after.items() if k.startswith(L + b"objects/") and v[0] == "file"}
    download = pay["mode"] != "upload"
    for k, v in want_obj.items():
        if k not in got_obj:
            bad.append((["C01", "C10", "C02"], "object %r is missing" % k[-64:]))
        elif got_obj[k] != v:
            bad.append((["C01", "C10", "C02"], "object %r does not hold its bytes" % k[-64:]))
    for k in got_obj:
        if k not in want_obj:
            bad.append((["C01", "C02", "C03"] + (["C04"] if download else []), "unexpected file %r in the store" % k))
    for k in after:
        if k.startswith(L + b"incomplete/"):
            if k not in before:
                bad.append((["C01"] + (["C04"] if download else []), "left behind: %r" % k))
    want_locks = {L + b"locks/" + k: v for k, v in m.lockfiles.items()}
    got_locks = {k: v[1] for k, v in after.items() if k.startswith(L + b"locks/") and v[0] == "file"}
    for k, v in want_locks.items():
        if k not in got_locks:
            if k.endswith(b".lock") or not OIDRE.match(k[len(L) + 6:]):
                if before.get(k) and k.endswith(b".lock"):
                    continue
            bad.append((["C14", "C15"] + (["C04"] if download else []), "lock file %r is gone" % k[len(L):]))
        elif v.startswith(b"v1:NOW:"):
            g = got_locks[k]
            r = parse_record(g)
            if r is None or r[1] != v[7:] or not (t0 - 1 <= r[0] <= t1 + 1):
                bad.append((["C17", "C14"], "lock record %r for path %r" % (g[:80], v[7:][:60])))
        elif got_locks[k] != v:
            bad.append((["C14", "C15", "C17"] + (["C04"] if download else []), "lock file %r changed" % k[len(L):]))
    for k in got_locks:
        if k not in want_locks:
            bad.append((["C14", "C15"] + ([] if OIDRE.match(k[len(L) + 6:]) else ["C03"]) + (["C04"] if download else []), "unexpected lock file %r" % k[len(L):]))
    for k, v in after.items():
        if k.startswith(L) or k + b"/" == L:
            continue
        if k not in before or before[k] != v:
            bad.append((["C03"], "%r changed" % k))
    for k in before:
        if k not in after and not k.startswith(L):
            bad.append((["C03"], "%r removed" % k))
    for k, v in after.items():
        if k.startswith(L) and v[0] == "dir" and k not in before:
            rel = k[len(L):]
            if rel in (b"objects", b"incomplete", b"tmp", b"locks"):
                continue
            if re.match(rb"\Aobjects/[0-9a-f]{2}(/[0-9a-f]{2})?\Z", rel):
                if download:
                    bad.append((["C04"], "directory %r created" % rel))
                continue
            bad.append((["C03"], "directory %r created" % rel))
    # permissions
    mask = expected_mask(pay.get("config"), pay.get("umask", 0o022))
    if mask is not None:
        for k in want_obj:
            if k in after and k not in before:
                if after[k][2] != 0o777 & ~mask:
                    bad.append((["C18"], "object mode %04o, expected %04o (sharedRepository %r, umask %04o)" % (after[k][2], 0o777 & ~mask, pay.get("config"), pay.get("umask", 0o022))))
        fm = expected_file_umask(pay.get("config"), pay.get("umask", 0o022))
        if fm is not None:
            for k in want_locks:
                if k in after and k not in before and after[k][0] == "file":
                    if after[k][2] != 0o666 & ~fm:
                        bad.append((["C18"], "lock mode %04o, expected %04o (sharedRepository %r)" % (after[k][2], 0o666 & ~fm, pay.get("config"))))
            for k, v in after.items():
                if k.startswith(L) and v[0] == "dir" and k not in before and v[2] != 0o777 & ~fm:
                    bad.append((["C18"], "directory %r has mode %04o, expected %04o (sharedRepository %r)" % (k[len(L):], v[2], 0o777 & ~fm, pay.get("config"))))
    return bad

def shared_perms(config):
    """permission bits asked for, or None to keep the umask; 'bad' if the value is not one the property names"""
    if config is None:
        return None
    c = config
    if c in ("", "true", "yes", "on", "group", "1", "01"):
        return 0o660
    if c in ("false", "no", "off", "umask", "0", "00"):
        return None
    if c in ("2", "all", "world", "everybody"):
        return 0o664
    if re.match(r"\A[0-7]+\Z", c) and int(c, 8) <= 0o777:
        return int(c, 8)
    return "bad"

def expected_mask(config, umask):
    p = shared_perms(config)
    if p == "bad":
        return None
    if p is None:
        return umask
    p |= (p & 0o444) >> 2
    return 0o777 & ~p

expected_file_umask = expected_mask

KINDS = {"pkt-read": run_pkt_read, "pkt-write": run_pkt_write, "session": run_session}

# ------------------------------------------------------------------ kill points and interleavings
EFFECTS = ["open", "openat", "creat", "rename", "renameat", "renameat2", "link", "linkat", "unlink", "unlinkat", "mkdir", "mkdirat", "chmod", "fchmod", "fchmodat", "write", "pwrite64",
           "writev", "ftruncate", "truncate", "copy_file_range", "sendfile", "splice", "symlink", "symlinkat", "fsync", "close"]

def strace_ok(env):
    if not hasattr(env, "_strace"):
        r = subprocess.run(["strace", "-f", "-o", "/dev/null", "-e", "trace=write", "-e", "inject=write:signal=KILL:when=1", "/bin/echo", "x"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        env._strace = r.returncode != 0 and b"x" not in r.stdout
    return env._strace

SYSRE = re.compile(r"^(?:\d+\s+)?(\w+)\((.*)\)\s+=\s+(-?\d+|\?)(.*)$")

def traced(env, repo, mode, data, umask=0o022, inject=None, timeout=30):
    """runs the server under strace; returns (rc, out, err, [(name, args, ret)])"""
    log = os.path.join(env.scratch, "strace.%d" % env.n)
    pre = ["strace", "-f", "-y", "-s", "300", "-o", log, "-e", "trace=" + ",".join(EFFECTS) + ",stat,newfstatat,statx,lstat,access,readlink"]
    if inject:
        pre += ["-e", "inject=" + inject]
    rc, out, err = serve(env, repo, mode, data, umask, timeout=timeout, prefix=pre)
    calls = []
    try:
        with open(log, errors="surrogateescape") as f:
            for l in f:
                m = SYSRE.match(l.rstrip("\n"))
                if m:
                    calls.append((m.group(1), m.group(2), m.group(3)))
        os.unlink(log)
    except OSError:
        pass
    return rc, out, err, calls

def count_store(lfs):
    """objects in the store as {oid: bytes}, plus complaints"""
    bad = []
    got = {}
    for dp, _, fn in os.walk(os.path.join(lfs, "objects")):
        for n in fn:
            p = os.path.join(dp, n)
            data = open(p, "rb").read()
            rel = os.path.relpath(p, os.path.join(lfs, "objects"))
            if not re.match(r"\A([0-9a-f]{2})/([0-9a-f]{2})/(\1\2[0-9a-f]{60})\Z", rel):
                bad.append("file %r in the store" % rel)
                continue
            if hashlib.sha256(data).hexdigest() != n:
                bad.append("object %s holds %d bytes which do not have this digest" % (n[:16], len(data)))
            got[n] = data
    return got, bad

def lock_points(calls):
    """(name, occurrence, index) of every effect call from the first one inside the lfs directory on"""
    cnt, pts = {}, []
    started = False
    for i, (n, a, r) in enumerate(calls):
        cnt[n] = cnt.get(n, 0) + 1
        if "/lfs" in a:
            started = True
        if started and n in EFFECTS:
            pts.append((n, cnt[n], i))
    return pts

def setup_plain(env, pay):
    d, repo, lfs = make_repo(env, pay.get("config"))
    for s in ("objects", "incomplete", "tmp", "locks"):
        os.makedirs(os.path.join(lfs, s))
    put_store(lfs, {o: ub64(v) for o, v in pay.get("objects", {}).items()}, {ub64(k): ub64(v) for k, v in pay.get("locks", {}).items()})
    return d, repo, lfs

def run_kill(env, pay):
    """A session killed at every effect in turn (or at pay['point'] only): the store must stay sound."""
    if not strace_ok(env):
        return []
    data = frame(unpack_reqs(pay["reqs"]))
    d, repo, lfs = setup_plain(env, pay)
    rc, out, err, calls = traced(env, repo, pay["mode"], data)
    shutil.rmtree(d)
    pts = lock_points(calls)
    bad = []
    objects = {o: ub64(v) for o, v in pay.get("objects", {}).items()}
    pick = pay.get("points")
    for j, (name, k, i) in enumerate(pts):
        if pick is not None and j not in pick:
            continue
        if time.time() > env.deadline:
            break
        d, repo, lfs = setup_plain(env, pay)
        traced(env, repo, pay["mode"], data, inject="%s:signal=KILL:when=%d" % (name, k))
        env.kills = getattr(env, "kills", 0) + 1
        got, complaints = count_store(lfs)
        for c in complaints:
            bad.append((["C02"], "killed at %s #%d: %s" % (name, k, c)))
        for o, v in objects.items():
            if got.get(o) != v:
                bad.append((["C02"], "killed at %s #%d: stored object %s is gone or changed" % (name, k, o[:16])))
        # a later session works: the interrupted creation neither crashes it nor grants a second lock
        if pay.get("after"):
            locks = {n: open(os.path.join(os.fsencode(lfs), b"locks", n), "rb").read() for n in os.listdir(os.fsencode(os.path.join(lfs, "locks")))}
            reqs = unpack_reqs(pay["after"])
            t0 = int(time.time())
            rc, out, err = serve(env, repo, "upload", frame(reqs))
            t1 = int(time.time())
            if rc != 0:
                bad.append((["C14", "C23"], "killed at %s #%d: next session ends with exit status %s %r" % (name, k, rc, err[-120:])))
            else:
                resp, _ = split_responses(out)
                valid = {n for n in locks if OIDRE.match(n)}
                for r, req in zip(resp[1:], reqs):
                    pr = parse_response(r)
                    a = dict(x[:-1].split(b"=", 1) for x in req[1:] if b"=" in x)
                    idd = lock_id(a.get(b"path", b"")).encode()
                    if pr is None:
                        bad.append((["C14"], "malformed answer after a kill"))
                    elif idd in valid and pr[0] != 409:
                        bad.append((["C14"], "killed at %s #%d: a second lock was granted (%d)" % (name, k, pr[0])))
                    elif idd not in valid and pr[0] != 201:
                        bad.append((["C14"], "killed at %s #%d: lock refused with %d although no lock exists" % (name, k, pr[0])))
                    valid.add(idd)
        shutil.rmtree(d, ignore_errors=True)
        if bad:
            pay["points"] = [j]
            return bad
    return bad

def children(pid):
    try:
        return [int(x) for x in open("/proc/%d/task/%d/children" % (pid, pid)).read().split()]
    except OSError:
        return []

def run_race(env, pay):
    """Session A is stopped after its k-th effect while session B runs to the end."""
    if not strace_ok(env):
        return []
    reqsA, reqsB = unpack_reqs(pay["reqs"]), unpack_reqs(pay["reqsB"])
    d, repo, lfs = setup_plain(env, pay)
    rc, out, err, calls = traced(env, repo, pay["mode"], frame(reqsA))
    shutil.rmtree(d)
    bad = []
    pts = lock_points(calls)
    pick = pay.get("points")
    for j, (name, k, i) in enumerate(pts):
        if pick is not None and j not in pick:
            continue
        if time.time() > env.deadline:
            break
        if name in ("close", "write") and pick is None and j % 2:
            pass
        d, repo, lfs = setup_plain(env, pay)
        log = os.path.join(env.scratch, "race.log")
        if os.path.exists(log):
            os.unlink(log)
        p = subprocess.Popen(["strace", "-f", "-o", log, "-e", "trace=" + ",".join(EFFECTS), "-e", "inject=%s:signal=STOP:when=%d" % (name, k), os.path.join(env.bins, "git-lfs-transfer"), repo, pay["mode"]],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env.environ(env.scratch), cwd=os.path.dirname(repo))
        p.stdin.write(frame(reqsA))
        p.stdin.close()
        stopped = None
        for _ in range(400):
            if p.poll() is not None:
                break
            for c in children(p.pid):
                try:
                    st = open("/proc/%d/stat" % c).read().rsplit(")", 1)[1].split()[0]
                except OSError:
                    continue
                if st in "Tt":
                    try:
                        if "--- stopped by SIGSTOP" in open(log).read():
                            stopped = c
                    except OSError:
                        pass
            if stopped:
                break
            time.sleep(0.005)
        t0 = int(time.time())
        rcB, outB, errB = serve(env, repo, pay.get("modeB", pay["mode"]), frame(reqsB))
        if stopped:
            try:
                os.kill(stopped, signal.SIGCONT)
            except ProcessLookupError:
                pass
            env.kills = getattr(env, "kills", 0) + 1
        try:
            outA = p.stdout.read()
            errA = p.stderr.read()
            rcA = p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            p.kill()
            rcA = None
            outA = errA = b""
        where = "A stopped after %s #%d" % (name, k)
        for who, rc, err in (("A", rcA, errA), ("B", rcB, errB)):
            if rc != 0:
                bad.append((["C14", "C23"], "%s: session %s ends with %s %r" % (where, who, rc, err[-150:])))
        ra, rb = split_responses(outA)[0][1:], split_responses(outB)[0][1:]
        ca = [(parse_response(r) or (0,))[0] for r in ra]
        cb = [(parse_response(r) or (0,))[0] for r in rb]
        if pay["kind2"] == "lock":
            grants = {}
            for reqs, cs, rs in ((reqsA, ca, ra), (reqsB, cb, rb)):
                for rq, c, r in zip(reqs, cs, rs):
                    a = dict(x[:-1].split(b"=", 1) for x in rq[1:] if b"=" in x)
                    g = grants.setdefault(a[b"path"], [])
                    g.append((c, [x for x in (parse_response(r) or (0, [], []))[1]]))
            for path, g in grants.items():
                n = sum(1 for c, _ in g if c == 201)
                idd = lock_id(path)
                lf = os.path.join(lfs, "locks", idd)
                if n > 1:
                    bad.append((["C14"], "%s: two sessions got a lock for %r" % (where, path)))
                if n == 0 and not pay.get("locks"):
                    bad.append((["C14"], "%s: nobody was granted the lock on %r: %s" % (where, path, [c for c, _ in g])))
                if n >= 1:
                    if not os.path.exists(lf):
                        bad.append((["C14"], "%s: lock on %r was granted but does not exist" % (where, path)))
                    else:
                        rec = parse_record(open(lf, "rb").read())
                        if rec is None or rec[1] != path:
                            bad.append((["C14", "C17"], "%s: lock record is %r" % (where, open(lf, "rb").read()[:60])))
                        elif any(b"locked-at=" + rfc3339(rec[0]) + b"\n" not in args for c, args in g):
                            bad.append((["C14", "C17"], "%s: answers %r do not report the lock's record %r" % (where, g, rec)))
                for c, args in g:
                    if c not in (201, 409):
                        bad.append((["C14", "C06"], "%s: lock answered %d" % (where, c)))
        elif pay["kind2"] == "put":
            got, complaints = count_store(lfs)
            for c in complaints:
                bad.append((["C02", "C01"], "%s: %s" % (where, c)))
            for reqs, cs in ((reqsA, ca), (reqsB, cb)):
                for rq, c in zip(reqs, cs):
                    o = rq[0].split()[1].decode()
                    if c == 200 and o not in got:
                        bad.append((["C01", "C02"], "%s: upload answered 200 but %s is not stored" % (where, o[:16])))
            for o in pay.get("objects", {}):
                if o not in got:
                    bad.append((["C02"], "%s: stored object is gone" % where))
        shutil.rmtree(d, ignore_errors=True)
        if bad:
            pay["points"] = [j]
            return bad
    return bad

PATHCALLS = {"open", "openat", "creat", "rename", "renameat", "renameat2", "link", "linkat", "unlink", "unlinkat", "mkdir", "mkdirat", "chmod", "fchmodat", "truncate", "symlink", "symlinkat", "stat", "newfstatat", "statx", "lstat", "access", "readlink"}

def run_paths(env, pay):
    """Every path the server hands to the system during requests is one of its own store files, and is
    derived from a well-formed id."""
    if not strace_ok(env):
        return []
    reqs = unpack_reqs(pay["reqs"])
    d, repo, lfs = setup_plain(env, pay)
    os.makedirs(os.path.join(d, "outside"))
    open(os.path.join(d, "outside", "secret"), "wb").write(b"v1:0:secret")
    for n in ("aa", "aa/bb"):
        os.makedirs(os.path.join(lfs, "objects", n), exist_ok=True)
    before = snapshot(d)
    rc, out, err, calls = traced(env, repo, pay["mode"], frame(reqs))
    after = snapshot(d)
    bad = []
    started = False
    base = os.path.realpath(lfs)
    for n, a, r in calls:
        ps = [m.group(1) for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', a)]
        if n in ("write", "writev", "pwrite64"):
            m = re.match(r"\d+<([^>]*)>", a)
            ps = []
            if m and started and m.group(1).startswith("/") and not m.group(1).startswith(base) and not m.group(1).startswith("/dev/"):
                bad.append((["C03"], "writes to %s" % m.group(1)))
            if m and "version=1" in a:
                started = True
            continue
        if n not in PATHCALLS or not started:
            continue
        for p in ps:
            if p == "":
                continue
            p2 = p.encode().decode("unicode_escape", "replace") if "\\" in p else p
            if not p2.startswith("/"):
                m = re.match(r"(?:\d+|AT_FDCWD)<([^>]*)>", a)
                p2 = os.path.join(m.group(1) if m else "/?", p2)
            if not p2.startswith(lfs) and not p2.startswith(base):
                if p == "/" and n in ("newfstatat", "stat", "lstat", "statx"):
                    continue        # the C library, before it reads nsswitch.conf
                if p2.startswith(("/etc/", "/proc/self", "/lib", "/usr/lib", "/usr/share/zoneinfo", "/dev/", "/sys/", "/run/", "/var/run", "/nonexistent")):
                    continue
                bad.append((["C03"], "%s(%s) outside the store" % (n, p[:200])))
                continue
            rel = os.path.relpath(p2, lfs) if p2.startswith(lfs) else os.path.relpath(p2, base)
            raw = p2[len(lfs):].lstrip("/")
            if raw.rstrip("/") in ("", "objects", "incomplete", "tmp", "locks"):
                continue
            if re.match(r"\Aobjects/([0-9a-f]{2})(/([0-9a-f]{2})(/\1\3[0-9a-f]{60})?)?/?\Z", raw) or re.match(r"\Alocks/[0-9a-f]{64}(\.[0-9]+\.lock)?\Z", raw) or re.match(r"\Aincomplete/[^/]+\Z", raw):
                continue
            bad.append((["C03"], "%s reaches the path %r" % (n, raw[:160])))
    for k in before:
        if not (k + b"/").startswith(b"repo/.git/lfs/") and after.get(k) != before[k]:
            bad.append((["C03"], "%r changed" % k))
    shutil.rmtree(d, ignore_errors=True)
    return bad

KINDS.update({"kill": run_kill, "race": run_race, "paths": run_paths})

# ------------------------------------------------------------------ git-at and git-recent-refs
def git(env, repo, *args, **kw):
    return subprocess.run(["git", "-C", repo] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(env.environ(env.scratch), GIT_COMMITTER_NAME="c", GIT_COMMITTER_EMAIL="c@x", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@x"), **kw)

def build_history(env, pay):
    """commits: [{t, at, msg, parents}] ; refs: {name: commit index or ['tag', name, commit] or ['tree'] or ['sym', target]}; reflog: [from names]"""
    d = env.dir()
    repo = os.path.join(d, "r")
    subprocess.run(["git", "init", "-q", "-b", "main", repo], env=env.environ(env.scratch), stdout=subprocess.DEVNULL)
    fi = b""
    for i, c in enumerate(pay["commits"]):
        msg = ub64(c["msg"])
        fi += b"commit refs/tmp/x\nmark :%d\nauthor A <a@x> %d %s\ncommitter C <c@x> %d %s\ndata %d\n%s\n" % (i + 1, c.get("at", c["t"]), c.get("atz", "+0000").encode(), c["t"], c.get("tz", "+0000").encode(), len(msg), msg)
        for j, p in enumerate(c["parents"]):
            fi += (b"from :%d\n" if j == 0 else b"merge :%d\n") % (p + 1)
        if not c["parents"]:
            fi = fi.replace(b"commit refs/tmp/x\nmark :%d\n" % (i + 1), b"reset refs/tmp/x\ncommit refs/tmp/x\nmark :%d\n" % (i + 1))
        fi += b"M 100644 inline f\ndata %d\n%s\n" % (len(str(i)), str(i).encode())
    marks = os.path.join(d, "marks")
    r = git(env, repo, "fast-import", "--quiet", "--force", "--export-marks=" + marks, input=fi)
    ids = {}
    for l in open(marks):
        a, b = l.split()
        ids[int(a[1:]) - 1] = b
    git(env, repo, "update-ref", "-d", "refs/tmp/x")
    for name, v in pay.get("refs", {}).items():
        if isinstance(v, int):
            git(env, repo, "update-ref", name, ids[v])
        elif v[0] == "tag":
            t = git(env, repo, "mktag", input=b"object %s\ntype commit\ntag %s\ntagger T <t@x> 5 +0000\n\nm\n" % (ids[v[1]].encode(), b"t")).stdout.strip().decode()
            git(env, repo, "update-ref", name, t)
        elif v[0] == "tree":
            t = git(env, repo, "rev-parse", ids[v[1]] + "^{tree}").stdout.strip().decode()
            git(env, repo, "update-ref", name, t)
        elif v[0] == "sym":
            git(env, repo, "symbolic-ref", name, v[1])
    if pay.get("pack"):
        git(env, repo, "pack-refs", "--all")
    head = pay.get("head")
    if head is not None:
        open(os.path.join(repo, ".git", "HEAD"), "w").write("ref: %s\n" % head if isinstance(head, str) else ids[head] + "\n")
    if "reflog" in pay:
        os.makedirs(os.path.join(repo, ".git", "logs"), exist_ok=True)
        z = "0" * 40
        with open(os.path.join(repo, ".git", "logs", "HEAD"), "w") as f:
            for i, (a, b) in enumerate(pay["reflog"]):
                a = ids[a] if isinstance(a, int) else a
                b = ids[b] if isinstance(b, int) else b
                f.write("%s %s C <c@x> %d +0000\tcheckout: moving from %s to %s\n" % (ids[0], ids[0], 1000 + i, a, b))
    return d, repo, ids

def walk(commits, start):
    """the commits reachable from start, newest first"""
    seen, todo = {start}, [start]
    while todo:
        for p in commits[todo.pop()]["parents"]:
            if p not in seen:
                seen.add(p)
                todo.append(p)
    return sorted(seen, key=lambda i: -commits[i]["t"])

def clean_env(env):
    return env.environ(env.scratch)

def run_gitat(env, pay):
    d, repo, ids = build_history(env, pay)
    bad = []
    prev = None
    for case in pay["cases"]:
        if bad:
            break
        prev = case
        args = []
        if case.get("summary"):
            args.append("--summary")
        if case.get("quiet"):
            args.append("--quiet")
        if case.get("nofixup"):
            args.append("--no-fixup")
        rev = case.get("rev")
        if rev is not None:
            args.append(ids[rev] if isinstance(rev, int) else rev)
        pat = ub64(case["pat"])
        p = subprocess.run([os.path.join(env.bins, "git-at")] + args + ["--", pat] if False else [os.path.join(env.bins, "git-at")] + args + [pat], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=clean_env(env), timeout=60)
        start = case.get("start")   # commit index the revision resolves to, or None if it does not exist
        env.cases = getattr(env, "cases", 0) + 1
        tags = ["C21"] if case.get("summary") else ["C20"]
        desc = "git-at %s %r" % (" ".join(args), pat)
        if case.get("badre"):
            if p.returncode != 2 or p.stdout or not p.stderr:
                bad.append((["C19"], "%s: invalid pattern: exit %d, stdout %r, stderr %r" % (desc, p.returncode, p.stdout, p.stderr)))
            continue
        if start is None:
            if p.returncode != 1 and p.returncode != 2 or p.stdout:
                bad.append((["C19"], "%s: exit %d %r" % (desc, p.returncode, p.stdout)))
            elif case.get("norev") and (p.returncode != case["norev"] or (not p.stderr and not (case.get("quiet") and case["norev"] == 1))):
                bad.append((["C19"], "%s: exit %d, stderr %r" % (desc, p.returncode, p.stderr)))
            continue
        try:
            rx = re.compile(pat)
        except re.error:
            continue
        want = None
        for i in walk(pay["commits"], start):
            m = ub64(pay["commits"][i]["msg"]).lstrip(b"\n")   # git does not count leading newlines as part of the message
            if case.get("nofixup") and re.match(rb"\A[ \t\n\r\f\v]*(?:fixup|squash)!", m):
                continue
            t = m.split(b"\n")[0] if case.get("summary") else m
            if rx.search(t):
                want = i
                break
        if want is None:
            if p.returncode != 1:
                bad.append((tags + ["C19"], "%s: nothing matches, exit %d %r %r" % (desc, p.returncode, p.stdout[:60], p.stderr[:100])))
            elif p.stdout:
                bad.append((["C19"], "%s: prints %r" % (desc, p.stdout)))
            elif bool(p.stderr) == bool(case.get("quiet")):
                bad.append((["C19"], "%s: diagnostics %r" % (desc, p.stderr)))
            elif p.stderr and p.stderr.count(b"\n") != 1:
                bad.append((["C19"], "%s: diagnostics %r" % (desc, p.stderr)))
        else:
            if p.returncode != 0:
                bad.append((tags + ["C19"], "%s: expected %s, exit %d %r" % (desc, ids[want], p.returncode, p.stderr[:100])))
            elif p.stdout != ids[want].encode() + b"\n":
                if p.stdout.strip() == ids[want].encode():
                    bad.append((["C19"], "%s: prints %r" % (desc, p.stdout)))
                else:
                    g = {v: k for k, v in ids.items()}.get(p.stdout.strip().decode("latin1"))
                    bad.append((tags if case.get("summary") else ["C20"], "%s: expected commit %d, got commit %s" % (desc, want, g)))
            elif p.stderr:
                bad.append((["C19"], "%s: diagnostics on success: %r" % (desc, p.stderr)))
    if bad:
        pay["cases"] = [prev]
    shutil.rmtree(d, ignore_errors=True)
    return bad

def run_refs(env, pay):
    d, repo, ids = build_history(env, pay)
    bad = []
    for sort in pay["sorts"]:
        args = ["--sort=" + sort] if sort else []
        p = subprocess.run([os.path.join(env.bins, "git-recent-refs")] + args, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=clean_env(env), timeout=60)
        env.cases = getattr(env, "cases", 0) + 1
        got = p.stdout.decode("utf-8", "surrogateescape").splitlines()
        if p.returncode != 0 or p.stderr:
            bad.append((["C22", "C19"], "git-recent-refs %s: exit %d %r" % (sort, p.returncode, p.stderr)))
            break
        if sort in ("committerdate", "authordate"):
            key = "t" if sort == "committerdate" else "at"
            want = {}
            for name, v in pay["refs"].items():
                if isinstance(v, int):
                    want[name] = pay["commits"][v]
                elif v[0] == "tag":
                    want[name] = pay["commits"][v[1]]
            val = {n: c.get(key, c["t"]) for n, c in want.items()}
            if sorted(got) != sorted(want):
                bad.append((["C22"], "%s lists %s, expected %s" % (sort, got[:6], sorted(want)[:6])))
            else:
                seq = [val[n] for n in got]
                if any(a < b for a, b in zip(seq, seq[1:])):
                    bad.append((["C22"], "%s: dates %s are not in descending order" % (sort, seq[:12])))
                else:
                    # ties keep the enumeration order, which is by name for refs kept the same way
                    for a, b in zip(got, got[1:]):
                        zz = "tz" if key == "t" else "atz"
                        if val[a] == val[b] and want[a].get(zz) == want[b].get(zz) and a > b:
                            bad.append((["C22"], "%s: references of the same date out of order: %s, %s" % (sort, a, b)))
                            break
        else:
            want = [pay["head"] if isinstance(pay["head"], str) else "HEAD"] if pay.get("headok", True) else []
            if want and not isinstance(pay["head"], str):
                want = ["HEAD"]
            if want:
                for a, b in reversed(pay["reflog"]):
                    if isinstance(a, int):
                        want.append(ids[a])
                    else:
                        full = a if a.startswith("refs/") else "refs/heads/" + a
                        if full in pay["refs"] and isinstance(pay["refs"][full], int):
                            want.append(full)
                        else:
                            break
            if got != want:
                bad.append((["C22"], "visitdate lists %s, expected %s" % (got, want)))
        if bad:
            pay["sorts"] = [sort]
            break
    shutil.rmtree(d, ignore_errors=True)
    return bad

def on_terminal(argv, cwd, env, stdin_tty=True, stderr_tty=False, timeout=30):
    """Runs a command with its standard output on a terminal; what the terminal had received when the command ended, its exit status and its stderr."""
    import pty, select, termios
    m, s = pty.openpty()
    a = termios.tcgetattr(s)
    a[1] &= ~termios.OPOST
    termios.tcsetattr(s, termios.TCSANOW, a)
    err = tempfile.TemporaryFile(dir=cwd)
    p = subprocess.Popen(argv, cwd=cwd, env=env, stdin=s if stdin_tty else subprocess.DEVNULL, stdout=s, stderr=s if stderr_tty else err, start_new_session=True)
    out, end, rc = b"", time.time() + timeout, None
    try:
        while time.time() < end:
            done = p.poll() is not None
            r, _, _ = select.select([m], [], [], 0 if done else 0.01)
            if r:
                out += os.read(m, 65536)
            elif done:
                rc = p.returncode
                break
    except OSError:
        rc = p.wait()
    if rc is None:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        rc = "hang"
    os.close(s)
    os.close(m)
    err.seek(0)
    return rc, out, err.read()

def run_pager(env, pay):
    """cases: [{tty, sort, env: {GIT_PAGER:, PAGER:}, core: , stdin_tty}]; %F in a pager is a file of its own"""
    d, repo, ids = build_history(env, pay)
    bad = []
    bindir = os.path.join(d, "bin")
    os.makedirs(bindir)
    with open(os.path.join(bindir, "less"), "w") as f:
        f.write("#!/bin/sh\nexec sed 's/^/less:/'\n")
    os.chmod(os.path.join(bindir, "less"), 0o755)
    base = clean_env(env)
    base["PATH"] = bindir + ":" + base["PATH"]
    prog = os.path.join(env.bins, "git-recent-refs")
    prev = None
    for i, case in enumerate(pay["cases"]):
        if bad:
            break
        prev = case
        mark = os.path.join(d, "mark%d" % i)
        sub = lambda v: v.replace("%F", mark)
        e = dict(base)
        for k, v in case.get("env", {}).items():
            e[k] = sub(v)
        args = ["--sort=" + case["sort"]] if case.get("sort") else []
        plain = subprocess.run([prog] + args, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=base, timeout=60)
        git(env, repo, "config", "--unset-all", "core.pager")
        if case.get("core") is not None:
            git(env, repo, "config", "core.pager", sub(case["core"]))
        env.cases = getattr(env, "cases", 0) + 1
        chosen = e.get("GIT_PAGER")
        if chosen is None:
            chosen = sub(case["core"]) if case.get("core") is not None else e.get("PAGER", "less")
        desc = "git-recent-refs %s with %s, core.pager %r" % (" ".join(args), {k: v for k, v in case.get("env", {}).items()}, case.get("core"))
        if not case["tty"]:
            p = subprocess.run([prog] + args, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e, timeout=60)
            if p.stdout != plain.stdout or p.returncode != plain.returncode or p.stderr != plain.stderr or os.path.exists(mark):
                bad.append((["C24"], "%s, standard output not a terminal: expected the plain listing %r, got %r, exit %s, pager run: %s" % (desc, plain.stdout[:200], p.stdout[:200], p.returncode, os.path.exists(mark))))
            continue
        if chosen in ("", "cat"):
            want, wmark = plain.stdout, None
        else:
            q = subprocess.run(["sh", "-c", chosen], input=plain.stdout, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, timeout=60)
            want = q.stdout
            wmark = open(mark, "rb").read() if os.path.exists(mark) else None
            if os.path.exists(mark):
                os.unlink(mark)
        rc, out, err = on_terminal([prog] + args, repo, e, case.get("stdin_tty", True), case.get("stderr_tty", False))
        got = open(mark, "rb").read() if os.path.exists(mark) else None
        desc += ", on a terminal"
        if rc != plain.returncode or err:
            bad.append((["C24"], "%s: exit %s, stderr %r" % (desc, rc, err[:200])))
        elif out != want:
            bad.append((["C24"], "%s: when the command ended the terminal showed %r, expected %r" % (desc, out[:300], want[:300])))
        elif got != wmark:
            bad.append((["C24"], "%s: when the command ended the pager had left %r, expected %r" % (desc, got and got[:300], wmark and wmark[:300])))
    if bad:
        pay["cases"] = [prev]
    shutil.rmtree(d, ignore_errors=True)
    return bad

KINDS.update({"git-at": run_gitat, "refs": run_refs, "pager": run_pager})

# ------------------------------------------------------------------ generators
class Gen:
    def __init__(self, rnd):
        self.r = rnd

    def bytes(self, n):
        return bytes(self.r.getrandbits(8) for _ in range(n))

    def blob(self, big=False):
        k = self.r.random()
        if k < 0.15:
            return b""
        if k < 0.7 or not big:
            return self.bytes(self.r.randrange(1, 60))
        return self.bytes(1) * self.r.choice([65515, 65516, 65517, 131032, 70000]) + self.bytes(3)

    def chunks(self, data):
        out = []
        pos = 0
        if self.r.random() < 0.4:
            while pos < len(data):
                out.append(data[pos:pos + MAXDATA])
                pos += MAXDATA
            return out
        while pos < len(data):
            if self.r.random() < 0.1:
                out.append(b"")
            n = self.r.choice([1, 2, 7, 30, 1000, MAXDATA]) if len(data) < 2000 else self.r.choice([1000, 40000, MAXDATA])
            out.append(data[pos:pos + n])
            pos += n
        if self.r.random() < 0.2:
            out.append(b"")
        return out

    def oid(self, data=None):
        return hashlib.sha256(data if data is not None else self.bytes(8)).hexdigest().encode()

    def badoid(self):
        o = self.oid()
        return self.r.choice([o[:-1], o + b"0", o.upper() if o.upper() != o else o[:-1] + b"A", o[:63] + b"g", b"", b"../../" + o[:58], o[:10] + b"/" + o[11:], b"\xff" * 64, o[:63] + b"\n",
                              b"..", b"/etc/passwd", o[:2] + b"/" + o[2:4] + b"/" + o, o[:-1] + b"F", b"x" * 64, b"0" * 63 + b".", o[:62] + "\u00e9".encode(), b"..%s" % o[:62], o[:32] + b"\0" + o[33:], b"G" + o[1:],
                              o[:63] + b":", o[:63] + b"`", o[:63] + b"@", o[:63] + b"/", b"`" * 64, o[:20], o[:63] + b"\t", b"incomplete/x", b"." * 64, b"-" * 64])

    def put(self, data, oid=None, size=None, args=None, tail=None):
        oid = self.oid(data) if oid is None else oid
        size = len(data) if size is None else size
        a = [b"size=%s\n" % (size if isinstance(size, bytes) else b"%d" % size)] if args is None else args
        return [b"put-object " + oid + self.r.choice([b"\n", b"\n", b""])] + a + [DELIM] + self.chunks(data) + (tail or [])

    def path(self):
        return self.r.choice([b"a", b"foo/bar", b"", b"x:y:z", b"a=b", b" sp ace ", b"\xff\xfe", "\u00fcber/\u4e16".encode(), b"v1:5:z", b"../x", b"a\nb", b"\n", b"=", b"p%d" % self.r.randrange(6), self.bytes(self.r.randrange(1, 12)).replace(b"\0", b"0")])

    def lock(self, path):
        a = [b"path=" + path + b"\n", b"refname=refs/heads/main\n"]
        if self.r.random() < 0.3:
            a.reverse()
        return [b"lock\n"] + a

    def junkargs(self):
        return self.r.choice([[b"noequals\n"], [b"a=b"], [b""], [b"\n"], [b"=\n"], [b"a=1\n", b"a=2\n"], [b"a=1\n", b"a=1\n"], [b"k="], [b"="], [b"a=b\n\n"], [b"size\n"], [b"size=1"], [b"\nsize=3\n", b"size=3\n", b"size=4\n"], [DELIM], [b"a\n=b\n"], [b"size=\n"]])

    def badint(self):
        return self.r.choice([b"-1", b"", b"18446744073709551616", b"1 ", b" 1", b"0x10", b"+", b"-0", b"1.0", b"one", b"\xff", b"99999999999999999999999", b"1e3", "\u0661".encode(), b"1_0", b"++1"])

    def limits(self):
        return self.r.choice([b"1", b"2", b"3", b"5", b"7", b"99", b"100", b"101", b"+2", b"002", b"18446744073709551615", b"1000"])

def dist(payload):
    return hashlib.sha256(json.dumps(payload, sort_keys=True).encode()).hexdigest()

def sess(mode, reqs, **kw):
    d = dict(kind="session", mode=mode, reqs=pack_reqs(reqs))
    for k, v in kw.items():
        if k == "objects":
            v = {o.decode() if isinstance(o, bytes) else o: b64(x) for o, x in v.items()}
        elif k == "locks":
            v = {b64(n): b64(x) for n, x in v.items()}
        elif k == "foreign":
            v = {b64(n): u for n, u in v.items()}
        elif k == "raw":
            v = b64(v)
        d[k] = v
    return d

def mklocks(g, n, times=None):
    res = {}
    for i in range(n):
        p = b"p%d" % i if g.r.random() < 0.5 else g.path() + b"%d" % i
        t = g.r.choice(times or [0, 1, 1000684800, 1700000000, -1, 951782399, 951782400, 4102444799, -62167219200])
        res[lock_id(p).encode()] = b"v1:%d:%s" % (t, p)
    return res

JUNK_RECORDS = [b"", b"v1", b"v1:", b"v1:5", b"v2:5:x", b"v1:x:y", b"v1:99999999999999999:p", b"v1::p", b":5:p", b"v1:5 :p", b"V1:5:p", b"v1:-9223372036854775808:p", b"v1:9223372036854775807:p", b"v1:9223372036854775808:p",
                b"v1:8210298412799:p", b"v1:8210298412800:p", b"v1:-8334632851200:p", b"v1:-8334632851201:p", b"\xff\xfe\xfd", b"v1:\xff:p", b"v1:0x5:p", b" v1:5:p", b"v1:+5:p", b"v1:-0:q", b"v11:5:p", b"v:5:p", b"v1:5.0:p"]

def g_c07(g, env):
    r = g.r
    while True:
        s = b""
        for _ in range(r.randrange(0, 5)):
            k = r.random()
            if k < 0.15:
                s += b"0000"
            elif k < 0.3:
                s += b"0001"
            elif k < 0.85:
                s += enc_pkt(g.bytes(r.choice([0, 1, 2, 3, 10, 200])))
            elif k < 0.9:
                s += enc_pkt(g.bytes(1) * r.choice([65516, 65515, 65514]))
            else:
                s += enc_pkt(g.bytes(20))[:r.randrange(0, 24)]
        k = r.random()
        if k < 0.35:
            h = bytearray(b"%04x" % r.choice([2, 3, 4, 5, 9, 16, 255, 4095, 65519, 65520, 65521, 65535, 0xfff0, 0xfff1]))
            if r.random() < 0.5:
                h[r.randrange(4)] = r.choice(b"0123456789abcdefABCDEFgGz/:@`+- \n\0\xff\x30\x39\x61\x66")
            s += bytes(h) + g.bytes(r.choice([0, 1, 5, 12]))
            if r.random() < 0.15:
                s += b"y" * 65540
        elif k < 0.5:
            s += bytes(r.choice(b"0123456789abcdef") for _ in range(r.randrange(0, 5)))
        ops = ["p"] * r.randrange(1, 8) if r.random() < 0.8 else ["i"]
        yield dict(kind="pkt-read", stream=b64(s), max=r.choice([1, 3, 4, 7, 100, 65536, 10**6]) if len(s) < 5000 else r.choice([1000, 65536, 10**6]), intr=r.choice([0, 0, 3, 5]), ops=ops)

def fixed_c07():
    # every byte value at each header position, every length around the edges
    for pos in range(4):
        for b in range(256):
            h = bytearray(b"0005")
            h[pos] = b
            yield dict(kind="pkt-read", stream=b64(bytes(h) + b"xyz" * 8), max=10**6, intr=0, ops=["p"])
    for n in list(range(0, 20)) + list(range(65510, 65536)):
        for m in (n - 5, n - 4, n - 3, n, 65600):
            yield dict(kind="pkt-read", stream=b64(b"%04x" % n + b"q" * max(0, m)), max=10**6, intr=0, ops=["p", "p"] if m < 30 else ["p"])
    # the same headers met by read(), with a small and a large buffer, with and without a packet before
    for n in list(range(2, 8)) + list(range(65514, 65536)):
        for pre in (b"", enc_pkt(b"hello")):
            for size in (7, 65516, 100000):
                yield dict(kind="pkt-read", stream=b64(pre + b"%04x" % n + b"q" * 65600), max=10**6, intr=0, ops=["r%d" % size] * 2)

def g_c08(g, env):
    r = g.r
    while True:
        ops = []
        for _ in range(r.randrange(1, 5)):
            k = r.choice("wwaadfsF")
            if k in "fsF":
                ops.append(k)
            else:
                n = r.choice([0, 1, 2, 11, 12, 13, 251, 252, 253, 4091, 4092, 4093]) if r.random() < 0.75 else r.choice([65515, 65516, 65517, 131031, 131032, 131033, 200000])
                ops.append(k + b64((g.bytes(40) * (n // 40 + 1))[:n]))
        yield dict(kind="pkt-write", max=r.choice([1, 5, 100, 10**6, 10**6]) if all(len(o) < 8000 for o in ops) else r.choice([1000, 10**6]), lim=r.choice([10**9, 10**9, 10**9, r.randrange(0, 60)]), ops=ops)

def fixed_c08():
    for n in list(range(0, 20)) + [251, 252, 253, 4091, 4092, 4093] + list(range(65510, 65530)) + [65536, 131031, 131032, 131033]:
        d = b64((b"0123456789abcdefghij" * (n // 20 + 1))[:n])
        for k in "wad":
            yield dict(kind="pkt-write", max=10**6, lim=10**9, ops=[k + d, "f"])

def g_c09(g, env):
    r = g.r
    while True:
        s = b""
        for _ in range(r.randrange(1, 7)):
            k = r.random()
            s += enc_pkt(b"") if k < 0.2 else enc_pkt(g.bytes(r.choice([1, 2, 5, 9, 30]))) if k < 0.85 else b"0000" if k < 0.92 else b"0001" if k < 0.97 else enc_pkt(g.bytes(1) * 65516)
        k = r.random()
        s += b"0000" if k < 0.6 else b"0001" if k < 0.75 else r.choice([b"", b"000", b"zzzz", b"0009ab", b"0003", b"fff1"])
        s += enc_pkt(g.bytes(4)) + b"0000"
        if r.random() < 0.5:
            sizes = [r.choice([0, 1, 2, 3, 5, 8, 40]) for _ in range(r.randrange(1, 30))]
        else:
            sizes = [r.choice([0, 1, 5, 65515, 65516, 65517, 100000]) for _ in range(r.randrange(1, 10))]
        yield dict(kind="pkt-read", stream=b64(s), max=r.choice([1, 3, 100, 10**6]) if len(s) < 5000 else 10**6, intr=r.choice([0, 0, 3]), ops=["r%d" % n for n in sizes])

def put_variants(g):
    r = g.r
    data = g.blob(big=r.random() < 0.25)
    k = r.random()
    n = len(data)
    if k < 0.35:
        return g.put(data)
    if k < 0.45:
        return g.put(data, size=n + r.choice([-1, 1, 2**32, 10]) if n else 1)
    if k < 0.55:
        bad = bytearray(g.oid(data))
        i = r.randrange(64)
        bad[i] = ord(b"0") if bad[i] != ord(b"0") else ord(b"1")
        return g.put(data, oid=bytes(bad))
    if k < 0.62:
        return g.put(data, oid=g.badoid())
    if k < 0.70:
        return g.put(data, args=g.junkargs())
    if k < 0.76:
        return g.put(data, size=g.badint())
    if k < 0.82:
        return g.put(data, args=[b"size=%d\n" % n, b"x=y\n"], tail=[DELIM, b"trailer"] if r.random() < 0.5 else None)
    if k < 0.86:
        return [b"put-object " + g.oid(data) + b"\n", b"size=%d\n" % n]
    if k < 0.92:
        return g.put(data, size=b"+%03d" % n)
    # flipped content
    if n:
        j = r.randrange(n)
        return g.put(data[:j] + bytes([data[j] ^ 1]) + data[j + 1:], oid=g.oid(data))
    return g.put(data, args=[])

def g_c01(g, env):
    r = g.r
    while True:
        objs = {}
        for _ in range(r.randrange(0, 3)):
            b = g.blob()
            objs[g.oid(b)] = b
        reqs = []
        for _ in range(r.randrange(1, 5)):
            reqs.append(put_variants(g))
            if objs and r.random() < 0.4:
                o = r.choice(sorted(objs))
                reqs.append(r.choice([g.put(objs[o]), g.put(objs[o] + b"x", oid=o), g.put(b"other", oid=o, size=5), g.put(b"", oid=o)]))
        raw = b""
        if r.random() < 0.3:
            # truncated or broken upload at the end
            t = frame([g.put(b"hello world" + g.bytes(3))])
            raw = t[:r.randrange(5, len(t))]
            if r.random() < 0.3:
                raw = t[:-r.randrange(5, 9)] + b"zzzz"
        yield sess("upload", reqs, objects=objs, raw=raw)

def fixed_c01():
    g = Gen(random.Random(1))
    for n in (0, 1, 3, 65515, 65516, 65517, 131032, 200001):
        d = (b"abcdefghijklmnopqrstuvwxyz0123456789" * (n // 36 + 1))[:n]
        yield sess("upload", [g.put(d)])
        yield sess("upload", [g.put(d, size=n + 1), g.put(d, size=max(0, n - 1)) if n else g.put(d, size=2), [b"version 1\n"]])
        yield sess("upload", [g.put(d, size=n + 2**32), g.put(d, size=n + 2**63)])
        if n:
            yield sess("upload", [g.put(d[:-1] + b"!", oid=g.oid(d))])
            yield sess("upload", [g.put(d[:-1], oid=g.oid(d), size=n), g.put(d[:-1], oid=g.oid(d), size=n - 1)])
    d = b"hello world"
    t = frame([g.put(d)])
    for i in range(len(t)):
        yield sess("upload", [], raw=t[:i])
    for tail in ([DELIM], [DELIM, b"rest"], [b"", DELIM, DELIM]):
        t = frame([g.put(d, tail=tail)])
        for i in range(len(t) - 14, len(t)):
            yield sess("upload", [], raw=t[:i])
    for pos in range(64):
        o = bytearray(g.oid(d))
        o[pos] = ord("0") if o[pos] != ord("0") else ord("f")
        yield sess("upload", [g.put(d, oid=bytes(o))])

def g_kill(g, env, after=None):
    r = g.r
    while True:
        objs = {}
        b0 = b"stored before"
        objs[g.oid(b0)] = b0
        reqs = []
        for _ in range(r.randrange(1, 3)):
            k = r.random()
            b = g.blob(big=r.random() < 0.3)
            reqs.append(g.put(b) if k < 0.5 else g.put(b0) if k < 0.65 else g.put(b"shorter", oid=g.oid(b0), size=7) if k < 0.8 else g.put(b, size=len(b) + 1))
        p = dict(sess("upload", reqs, objects=objs), kind="kill")
        yield p

def g_c02(g, env):
    a, b = g_kill(g, env), g_c01(g, env)
    rp = g_race_put(g, env)
    i = 0
    while True:
        i += 1
        if i % 12 == 1:
            yield next(a)
        elif i % 12 == 7:
            yield next(rp)
        else:
            yield next(b)

def g_race_put(g, env):
    while True:
        b = g.blob(big=False) + b"z"
        A = g.put(b)
        B = g.r.choice([g.put(b), g.put(b, size=len(b) + 1), g.put(b[:-1] + b"!", oid=g.oid(b), size=len(b))])
        p = dict(sess("upload", [A]), kind="race", kind2="put", reqsB=pack_reqs([B]))
        yield p

def fixed_c02():
    g = Gen(random.Random(2))
    b0, b1 = b"stored before", b"fresh data" * 3
    yield dict(sess("upload", [g.put(b1), g.put(b0)], objects={g.oid(b0): b0}), kind="kill")
    yield dict(sess("upload", [g.put(b"shorter", oid=g.oid(b0), size=7), g.put(b"x" * 70000)], objects={g.oid(b0): b0}), kind="kill")
    yield dict(sess("upload", [g.put(b1, size=5), g.put(b1, oid=g.oid(b"?")), g.put(b0[:-1] + b"?", oid=g.oid(b0))], objects={g.oid(b0): b0}), kind="kill")
    yield dict(sess("upload", [g.put(b1)]), kind="race", kind2="put", reqsB=pack_reqs([g.put(b1)]))
    yield dict(sess("upload", [g.put(b1)]), kind="race", kind2="put", reqsB=pack_reqs([g.put(b1[:-1] + b"!", oid=g.oid(b1))]))

def any_req(g, objs, locks):
    r = g.r
    k = r.randrange(16)
    o = r.choice(sorted(objs)) if objs and r.random() < 0.7 else g.oid()
    if k == 0:
        return [r.choice([b"version 1\n", b"version 1", b"version 2\n", b"version\n", b"version 1 2\n"])] + r.choice([[], [b"x"], [DELIM, b"quit\n"], [b"quit\n"]])
    if k == 1:
        return [b"batch\n"] + r.choice([[], [b"hash-algo=sha256\n"], [b"transfer=ssh\n", b"refname=refs/heads/x\n"]]) + [DELIM] + [b"%s %d\n" % (r.choice(sorted(objs)) if objs and r.random() < .5 else g.oid(), r.choice([0, 1, 7, 2**64 - 1])) for _ in range(r.randrange(0, 5))]
    if k == 2:
        return [b"batch\n"] + r.choice([[b"hash-algo=sha1\n"], [], g.junkargs(), [b"hash-algo=sha256"]]) + r.choice([[], [DELIM]]) + r.choice([[b"%s 5" % o], [b"%s\n" % o], [b"%s %s\n" % (o, g.badint())], [b"%s 5\n" % g.badoid()], [b""], [b"%s 5 6\n" % o], [b"%s  5\n" % o], [b"%s 5\n" % o, b"%s 5" % o], [DELIM], [b"\n"], [b" \n"], [b"%s \n" % o], [b" "], [b"%s " % o]])
    if k == 3:
        return put_variants(g)
    if k == 4:
        n = len(objs[o]) if o in objs else 3
        return [b"verify-object " + o + b"\n", b"size=%d\n" % r.choice([n, n, n + 1, max(0, n - 1), 0, 2**64 - 1])]
    if k == 5:
        return [b"verify-object " + r.choice([o, g.badoid()]) + b"\n"] + r.choice([[], g.junkargs(), [b"size=%s\n" % g.badint()], [b"size=3\n"]])
    if k == 6:
        return [b"get-object " + o + b"\n"]
    if k == 7:
        return [b"get-object " + g.badoid() + b"\n"] + r.choice([[], g.junkargs()])
    if k == 8:
        return g.lock(g.path())
    if k == 9:
        return [b"lock\n"] + r.choice([[b"path=a\n"], [b"refname=x\n"], [], g.junkargs(), [b"path=a\n", b"path=b\n", b"refname=x\n"], [b"path=a", b"refname=x\n"], [b"path=a\n", b"refname=x\n", DELIM]])
    if k == 10:
        ids = sorted(locks)
        return [b"list-lock\n"] + r.choice([[], [b"limit=%s\n" % g.limits()], [b"limit=%s\n" % g.limits(), b"cursor=%s\n" % (r.choice(ids) if ids else b"a")], [b"path=%s\n" % g.path()], [b"cursor=%s\n" % g.bytes(3).replace(b"\n", b"x")]])
    if k == 11:
        return [b"list-lock\n"] + r.choice([[b"limit=0\n"], [b"limit=%s\n" % g.badint()], g.junkargs(), [b"limit=1\n", b"limit=1\n"]])
    if k == 12:
        ids = sorted(locks)
        return [b"unlock " + (r.choice(ids) if ids and r.random() < 0.6 else r.choice([lock_id(g.path()).encode(), g.badoid().replace(b" ", b""), b"x", b"", b"\xff\xff"])) + b"\n"] + r.choice([[], [b"force=true\n"], [DELIM]])
    if k == 13:
        return [r.choice([b"bogus\n", b"", b"\n", b" ", b"lock x\n", b"unlock\n", b"batch x\n", b"put-object\n", b"get-object\n", b"verify-object\n", b"list-lock x\n", b"VERSION 1\n", b"quit now\n", b"quit \n", b" quit\n", b"\xff\n", b"Lock\n", b"unlock  x\n", b"locks\n"])] + r.choice([[], [b"quit\n"], [b"lock\n", b"path=zz\n", b"refname=x\n"], [b"path=q\n", b"refname=r\n"], [DELIM, b"put-object x\n"]])
    if k == 14:
        return r.choice([[], [DELIM], [DELIM, b"quit\n"], [DELIM, DELIM], [b""], [b"", b"quit\n"], [b"", DELIM, b"version 1\n"]])
    return [b"get-object " + o + b"\n", b"x=y\n"]

def g_any(g, env, modes=("upload", "download"), quitp=0.3, rawp=0.1):
    r = g.r
    while True:
        objs = {}
        for _ in range(r.randrange(0, 4)):
            b = g.blob()
            objs[g.oid(b)] = b
        locks = mklocks(g, r.randrange(0, 5))
        reqs = [any_req(g, objs, locks) for _ in range(r.randrange(1, 9))]
        if r.random() < quitp:
            reqs.append([b"quit\n"])
            if r.random() < 0.5:
                reqs.append(g.lock(b"after quit"))
        raw = b""
        if r.random() < rawp:
            t = frame([any_req(g, objs, locks)])
            raw = t[:r.randrange(0, max(1, len(t) - 4))]
            if b"0000" in raw or raw[:0] or not raw:
                raw = b""
        yield sess(r.choice(modes), reqs, objects=objs, locks=locks, raw=raw if not (reqs and reqs[-1][:1] == [b"quit\n"]) else b"")

def g_c03(g, env):
    r = g.r
    anyg = g_any(g, env)
    evil = [b"../outside/secret", b"../../../../outside/secret", b"/etc/passwd", b"..", b".", b"", b"a" * 63 + b"/", b"../locks/x", b"objects/aa", b"../../../outside/secret" + b"/" * 41, b"." * 64, b"/" * 64, b"aa/../" * 10 + b"aaaa",
            b"../" * 21 + b"x", b"%2e%2e", b"x\0y", b"~root", b"..\\x"]
    i = 0
    while True:
        i += 1
        if i % 3 == 0:
            yield next(anyg)
            continue
        e = lambda: r.choice(evil + [g.badoid()])
        data = g.blob()
        locks = mklocks(g, 2)
        lk = sorted(locks)[0]
        locks[lk + b".lock"] = b"v1:5:stale"
        reqs = []
        for _ in range(r.randrange(2, 7)):
            reqs.append(r.choice([lambda: g.put(data, oid=e()), lambda: [b"get-object " + e() + b"\n"], lambda: [b"verify-object " + e() + b"\n", b"size=%d\n" % len(data)], lambda: [b"unlock " + e().replace(b" ", b"") + b"\n"],
                                  lambda: [b"batch\n", DELIM, b"%s %d\n" % (e().replace(b" ", b""), 5)], lambda: g.lock(e()), lambda: [b"list-lock\n", b"path=" + e() + b"\n"], lambda: [b"list-lock\n", b"cursor=" + e() + b"\n"],
                                  lambda: [b"unlock " + lk + b".lock\n"], lambda: [b"unlock " + lk[:-1] + b"/\n"], lambda: [b"unlock ./" + lk + b"\n"], lambda: g.put(data), lambda: [b"get-object " + g.oid(data) + b"\n"]])())
        p = sess(r.choice(["upload", "upload", "download"]), reqs, objects={g.oid(b"S"): b"S"}, locks=locks)
        if i % 3 == 1:
            p["kind"] = "paths"
        yield p

def fixed_c03():
    g = Gen(random.Random(3))
    for o in [b"../outside/secret", b"../../../../outside/secret", b"." * 64, b"/" + b"a" * 63, b"..", b"", b"A" * 64, b"aa/../" * 10 + b"aaaa", b"g" * 64, b"a" * 65, b"a" * 63] + [bytes([c]) + b"a" * 63 for c in range(256) if c not in (10, 32)] + [b"a" * 63 + bytes([c]) for c in range(256) if c not in (10, 32)]:
        if OIDRE.match(o):
            continue
        yield sess("upload", [g.put(b"data", oid=o), [b"verify-object " + o + b"\n", b"size=4\n"], [b"unlock " + o + b"\n"], [b"batch\n", DELIM, o + b" 4\n"]], locks={b"a" * 64 + b".lock": b"v1:5:x"})
        yield sess("download", [[b"get-object " + o + b"\n"]])

def g_c04(g, env):
    a = g_any(g, env)
    b = g_any(g, env, modes=("download",))
    r = g.r
    i = 0
    while True:
        i += 1
        if i % 10 == 0:
            yield sess(r.choice(["Upload", "", "uploads", "down", "UPLOAD", "download ", "delete", "upload\n", "x"]), [g.put(b"abc"), g.lock(b"p")], locks={}, badop=True)
        elif i % 10 == 1:
            o = b"object"
            lk = mklocks(g, 2)
            q = sorted(lk)[0]
            m = r.choice(["download", "upload"])
            yield sess(m, [g.put(b"abc"), [b"verify-object " + g.oid(o) + b"\n", b"size=6\n"], g.lock(b"p"), [b"unlock " + q + b"\n"], [b"get-object " + g.oid(o) + b"\n"], [b"get-object " + g.oid(o)], [b"unlock " + q], [b"lock", b"path=z\n", b"refname=r\n"],
                            [b"list-lock\n"], [b"batch\n", DELIM, g.oid(o) + b" 6\n"]], objects={g.oid(o): o}, locks=lk)
        else:
            yield next(a if i % 2 else b)

def g_c10(g, env):
    r = g.r
    while True:
        objs = {}
        for _ in range(r.randrange(1, 4)):
            b = g.blob(big=r.random() < 0.4)
            objs[g.oid(b)] = b
        reqs = []
        for _ in range(r.randrange(1, 5)):
            reqs.append([b"get-object " + (r.choice(sorted(objs)) if r.random() < 0.8 else g.oid()) + b"\n"] + r.choice([[], [b"a=b\n"]]))
        yield sess("download", reqs, objects=objs)

def fixed_c10():
    g = Gen(random.Random(4))
    for n in (0, 1, 4, 8191, 8192, 8193, 16384, 65515, 65516, 65517, 131032, 131033, 300000):
        d = (b"abcdefghijklmnopqrstuvwxyz0123456789\n\0\xff" * (n // 39 + 1))[:n]
        yield sess("download", [[b"get-object " + g.oid(d) + b"\n"], [b"get-object " + g.oid(b"none") + b"\n"], [b"get-object " + g.oid(d) + b"\n"], [b"version 1\n"]], objects={g.oid(d): d})

def g_c11(g, env):
    r = g.r
    while True:
        objs = {}
        for _ in range(r.randrange(0, 4)):
            b = g.blob()
            objs[g.oid(b)] = b
        reqs = []
        for _ in range(r.randrange(1, 4)):
            lines = []
            for _ in range(r.randrange(0, 7)):
                o = r.choice(sorted(objs)) if objs and r.random() < 0.5 else g.oid()
                lines.append(b"%s %s\n" % (o, r.choice([b"0", b"1", b"42", b"+7", b"007", b"18446744073709551615", b"123456"])))
            if r.random() < 0.35:
                o = g.oid()
                lines.insert(r.randrange(len(lines) + 1), r.choice([b"%s 5" % o, b"%s\n" % o, b"%s %s\n" % (o, g.badint()), b"%s 5\n" % g.badoid().replace(b" ", b""), b"", b"%s 5 6\n" % o, b"%s  5\n" % o, b" %s 5\n" % o, b"%s 5 \n" % o, b"\n", b"%s \n" % o, b"%s\t5\n" % o, b"%s 5\n\n" % o, b"%s 5\r\n" % o, b" ", b"%s " % o]))
            if lines and r.random() < 0.3:
                lines.append(lines[0])
            reqs.append([b"batch\n"] + r.choice([[], [b"hash-algo=sha256\n"], [b"transfer=ssh\n", b"hash-algo=sha256\n", b"refname=x\n"], [b"hash-algo=sha512\n"], [b"hash-algo=\n"], [b"hash-algo=SHA256\n"], [b"hash-algo=sha256 \n"], [b"hash-algo=sha25\n"]] if r.random() < 0.5 else [[b"hash-algo=sha256\n"]]) + [DELIM] + lines)
        yield sess(r.choice(["upload", "download"]), reqs, objects=objs)

def g_c12(g, env):
    r = g.r
    while True:
        objs = {}
        b = g.blob()
        o = g.oid(b)
        objs[o] = b
        n = len(b)
        reqs = []
        for _ in range(r.randrange(1, 5)):
            val = r.choice([b"%d" % n, b"+%d" % n, b"000%d" % n, g.badint(), b"%d" % (n + 2**64), b"%d" % (n + 2**32), b"18446744073709551615", b"18446744073709551616", b"%d\n" % n, b"=%d" % n, b"%d=" % n])
            args = [b"size=" + val + b"\n"]
            for _ in range(r.randrange(0, 3)):
                args.insert(r.randrange(len(args) + 1), r.choice([b"a=b\n", b"c==\n", b"=x\n", b"=\n", b"sizes=1\n", b"siz=1\n", b"size =1\n", b"Size=9\n", b"k=\xff\n", b"bad\n", b"bad=1", b"", b"\n", b"a=c\n", b"size=%d\n" % n]))
            reqs.append([b"verify-object " + o + b"\n"] + args)
            if r.random() < 0.4:
                p = r.choice([b"a=b", b"=", b"x=", b"=x", b"a\nb", b"", b"p\n"])
                reqs.append([b"lock\n", b"path=" + p + b"\n", b"refname=" + g.path() + b"\n"])
            if r.random() < 0.3:
                reqs.append([b"list-lock\n", b"limit=" + r.choice([b"1", b"+1", b"01", g.badint(), b"18446744073709551615", b"18446744073709551616"]) + b"\n"])
        yield sess("upload", reqs, objects=objs)

def g_c13(g, env):
    r = g.r
    while True:
        objs = {}
        for _ in range(2):
            b = g.blob()
            objs[g.oid(b)] = b
        reqs = []
        for _ in range(r.randrange(2, 7)):
            o = r.choice(sorted(objs)) if r.random() < 0.75 else r.choice([g.oid(), g.badoid()])
            n = len(objs.get(o, b"xyz"))
            reqs.append([b"verify-object " + o + r.choice([b"\n", b""])] + r.choice([[b"size=%d\n" % n], [b"size=%d\n" % n], [b"size=%d\n" % r.choice([n + 1, n + 256, n + 2**32, max(0, n - 1), 0, 2 * n, 2**64 - 1])], [], [b"size=%s\n" % g.badint()], g.junkargs(), [b"x=1\n", b"size=+%d\n" % n]]))
        yield sess("upload", reqs, objects=objs)

def g_c14(g, env):
    r = g.r
    i = 0
    while True:
        i += 1
        if i % 8 == 1:
            p = b"racy"
            yield dict(sess("upload", [g.lock(p)]), kind="race", kind2="lock", reqsB=pack_reqs([g.lock(p)]))
            continue
        if i % 8 == 5:
            p = b"killed"
            yield dict(sess("upload", [g.lock(p)] + ([g.lock(b"other")] if r.random() < .5 else [])), kind="kill", after=pack_reqs([g.lock(p), g.lock(p)]))
            continue
        locks = mklocks(g, r.randrange(0, 4))
        paths = [parse_record(v)[1] for v in locks.values()] + [g.path() for _ in range(3)]
        if r.random() < 0.3:
            locks[lock_id(paths[-1]).encode() + b".lock"] = r.choice([b"", b"v1:5:" + paths[-1], b"junk"])
        own = []
        if r.random() < 0.4:
            own = [(b64(lock_id(p).encode()), b64(r.choice([b"", b"v1:5:" + p, b"v1:", b"junk"]))) for p in r.sample(paths, r.randrange(1, 3))]
        reqs = []
        for _ in range(r.randrange(2, 9)):
            p = r.choice(paths)
            k = r.random()
            if k < 0.6:
                reqs.append(g.lock(p))
            elif k < 0.8:
                reqs.append([b"unlock " + lock_id(p).encode() + b"\n"])
            else:
                reqs.append([b"list-lock\n"] + r.choice([[], [b"path=" + p + b"\n"]]))
        yield sess("upload", reqs, locks=locks, owntmp=own)

def fixed_c14():
    g = Gen(random.Random(5))
    yield dict(sess("upload", [g.lock(b"racy")]), kind="race", kind2="lock", reqsB=pack_reqs([g.lock(b"racy")]))
    yield dict(sess("upload", [g.lock(b"killed"), g.lock(b"k2")]), kind="kill", after=pack_reqs([g.lock(b"killed"), g.lock(b"k2"), g.lock(b"killed")]))
    for p in (b"a", b"", b"x:y", b"\xff", b"a\nb"):
        for left in (b"", b"v1:5:" + p, b"junk"):
            yield sess("upload", [g.lock(p), g.lock(p), [b"unlock " + lock_id(p).encode()], g.lock(p)], locks={lock_id(p).encode() + b".lock": left})
            yield sess("upload", [g.lock(p), g.lock(p)], locks={lock_id(p).encode() + b".lock": left, lock_id(p).encode(): b"v1:77:" + p})
            own = [(b64(lock_id(p).encode()), b64(left))]
            yield sess("upload", [g.lock(p), g.lock(p), [b"unlock " + lock_id(p).encode()], g.lock(p)], owntmp=own)
            yield sess("upload", [g.lock(p), g.lock(p)], owntmp=own, locks={lock_id(p).encode(): b"v1:77:" + p})
    a, b = b"same", b"same2"
    yield sess("upload", [g.lock(a), g.lock(b), g.lock(a), [b"unlock " + lock_id(b).encode()], g.lock(a), g.lock(b), [b"list-lock\n"]])

def g_c15(g, env):
    r = g.r
    while True:
        locks = mklocks(g, r.randrange(1, 6))
        ids = sorted(locks)
        reqs = []
        for _ in range(r.randrange(1, 6)):
            k = r.random()
            i = r.choice(ids)
            if k < 0.5:
                reqs.append([b"unlock " + i + r.choice([b"\n", b""])] + r.choice([[], [b"force=true\n"], [b"refname=x\n", b"force=false\n"]]))
            elif k < 0.75:
                reqs.append([b"unlock " + r.choice([i[:-1], i + b"0", i.upper(), b"x", i + b".lock", b"../locks/" + i, b"./" + i, b"\xff\xfe", b"\xc3\x28", lock_id(b"nope").encode(), g.badoid().replace(b" ", b"")]) + b"\n"])
            elif k < 0.9:
                reqs.append(g.lock(parse_record(locks[i])[1]))
            else:
                reqs.append([b"list-lock\n"])
        if r.random() < 0.3:
            locks[lock_id(b"zz").encode() + b".lock"] = b"v1:5:zz"
        yield sess("upload", reqs, locks=locks)

def g_c16(g, env):
    r = g.r
    i = 0
    while True:
        i += 1
        big = i % 6 == 0
        locks = mklocks(g, r.choice([99, 100, 101, 102, 205]) if big else r.randrange(0, 8))
        foreign = {}
        for k in sorted(locks):
            if r.random() < 0.2 and len(foreign) < 3:
                foreign[k] = r.choice([1, 54321])
        ids = sorted(locks)
        junk = r.random() < 0.3
        if junk:
            locks[b"0" * 64] = r.choice(JUNK_RECORDS)
            locks[b"garbage"] = b"v1:5:garbage"
            locks[r.choice(ids or [b"a" * 64]) + b".lock"] = b"v1:5:x"
        reqs = []
        # follow the cursor
        lim = r.choice([1, 2, 3, 5, 100]) if not big else r.choice([50, 100, 101, 33])
        cur = None
        pos = 0
        while True:
            a = [b"limit=%d\n" % lim] if lim != 100 or r.random() < .5 else []
            if pos:
                a.append(b"cursor=" + ids[pos] + b"\n")
            reqs.append([b"list-lock\n"] + a)
            pos += min(lim, 100)
            if pos >= len(ids):
                break
        for _ in range(2):
            reqs.append([b"list-lock\n"] + r.choice([[b"limit=%s\n" % g.limits()], [b"cursor=" + (r.choice(ids) if ids else b"") + b"\n"], [b"cursor=" + r.choice([b"", b"0", b"f", b"ffff", b"9a", b"\xff", b"8" * 64]) + b"\n"], [b"path=" + (parse_record(locks[r.choice(ids)])[1] if ids else b"q") + b"\n"],
                                                     [b"path=nope\n"], [b"limit=%s\n" % g.limits(), b"path=" + (parse_record(locks[r.choice(ids)])[1] if ids else b"q") + b"\n"]]))
        if not junk or all(parse_record(locks[k]) is None for k in locks if k == b"0" * 64):
            yield sess(r.choice(["upload", "download"]), reqs, locks=locks, foreign=foreign)

def fixed_c16():
    g = Gen(random.Random(6))
    for n in (0, 1, 2, 3, 99, 100, 101, 150):
        locks = mklocks(g, n)
        ids = sorted(locks)
        reqs = [[b"list-lock\n"], [b"list-lock\n", b"limit=1\n"], [b"list-lock\n", b"limit=%d\n" % max(1, n - 1)], [b"list-lock\n", b"limit=%d\n" % max(1, n)], [b"list-lock\n", b"limit=%d\n" % (n + 1)], [b"list-lock\n", b"limit=1000\n"]]
        if n > 1:
            reqs += [[b"list-lock\n", b"limit=1\n", b"cursor=" + ids[1] + b"\n"], [b"list-lock\n", b"cursor=" + ids[-1] + b"\n"], [b"list-lock\n", b"cursor=" + ids[0] + b"\n"], [b"list-lock\n", b"cursor=" + ids[0][:-1] + b"\n"]]
        for m in ("upload", "download"):
            yield sess(m, reqs, locks=locks)

def g_c17(g, env):
    r = g.r
    while True:
        locks = {}
        for _ in range(r.randrange(0, 4)):
            p = g.path()
            t = r.choice([0, -1, 59, 1000684800, 951782400, 951868799, 1582934400, 4102444800, 253402300799, 253402300800, TMAX, TMIN, -62135596800, -62135596801, r.randrange(-10**12, 10**12)])
            locks[lock_id(p).encode()] = b"v1:%d:%s" % (t, p)
        corrupt = False
        if r.random() < 0.4:
            rec = r.choice(JUNK_RECORDS)
            if parse_record(rec) is None:
                locks[lock_id(b"corrupt").encode()] = rec
                corrupt = True
        foreign = {}
        if locks and r.random() < 0.3:
            foreign[sorted(locks)[0]] = r.choice([1, 54321])
        reqs = []
        paths = [g.path() for _ in range(2)]
        for p in paths:
            reqs.append(g.lock(p))
        if r.random() < 0.3:
            big = bytes(r.choice(b"abc/") for _ in range(r.choice([255, 4096, 65000])))
            paths.append(big)
            reqs.append(g.lock(big))
        reqs.append([b"list-lock\n"])
        for i in sorted(locks)[:2]:
            rr = parse_record(locks[i])
            if rr:
                reqs.append(r.choice([g.lock(rr[1]), [b"list-lock\n", b"path=" + rr[1] + b"\n"], [b"unlock " + i]]))
        reqs.append([b"unlock " + lock_id(paths[0]).encode() + b"\n"])
        if corrupt:
            reqs += [[b"unlock " + lock_id(b"corrupt").encode()], [b"list-lock\n", b"path=corrupt\n"], g.lock(b"corrupt"), [b"list-lock\n"]]
        yield sess("upload" if r.random() < .85 else "download", reqs, locks=locks, foreign=foreign, corrupt=corrupt)

def fixed_c17():
    g = Gen(random.Random(7))
    for rec in JUNK_RECORDS:
        if parse_record(rec) is None:
            i = lock_id(b"corrupt").encode()
            yield sess("upload", [[b"list-lock\n"], [b"unlock " + i], [b"list-lock\n", b"path=corrupt\n"], g.lock(b"corrupt"), [b"list-lock\n"]], locks={i: rec, lock_id(b"q").encode(): b"v1:6:q"}, corrupt=True)
    for t in (TMIN, TMIN + 1, -62135596801, -62135596800, -1, 0, 1, 59, 60, 86399, 86400, 951782399, 951782400, 951868800, 1709164800, 1709251199, 4102444799, 253402300799, 253402300800, TMAX - 1, TMAX):
        i = lock_id(b"p:%d" % t).encode()
        yield sess("upload", [[b"list-lock\n"], g.lock(b"p:%d" % t), [b"list-lock\n", b"path=p:%d\n" % t], [b"unlock " + i]], locks={i: b"v1:%d:p:%d" % (t, t)})
    for p in (b"", b":", b"a:b", b"::", b"=", b"a=b", b"\xff\xfe\x80", "\u00e9".encode(), b"a\nb", b"\n", b" ", b"x y", b"v1:5:z", b"a" * 5000, b"\0", b"a\0b", bytes(range(256))):
        yield sess("upload", [g.lock(p), g.lock(p), [b"list-lock\n"], [b"list-lock\n", b"path=" + p + b"\n"], [b"unlock " + lock_id(p).encode()], [b"list-lock\n"]])
        yield sess("download", [[b"list-lock\n"], [b"list-lock\n", b"path=" + p + b"\n"]], locks={lock_id(p).encode(): b"v1:1000684800:" + p})

def g_c18(g, env):
    r = g.r
    cfgs = [None, "true", "false", "group", "umask", "all", "world", "everybody", "0", "1", "2", "", "yes", "no", "on", "off", "0600", "0640", "0660", "0664", "0666", "0644", "0755", "0700", "0770", "600", "640", "644", "0620", "0604", "00", "01", "0777"]
    while True:
        yield sess("upload", [g.put(g.blob()), g.lock(b"p")], config=r.choice(cfgs), umask=r.choice([0o022, 0o077, 0o002, 0o027, 0, 0o007, 0o057, 0o066]))

def fixed_c18():
    g = Gen(random.Random(8))
    for c in [None, "true", "false", "group", "umask", "all", "world", "everybody", "0", "1", "2", "", "0600", "0640", "0660", "0664", "0644", "640", "600", "0755", "yes", "no", "on", "off", "0604", "0620"]:
        for u in (0o022, 0o077, 0o007):
            yield sess("upload", [g.put(b"abc"), g.lock(b"p")], config=c, umask=u)

WORDS = [b"alpha", b"beta", b"gamma", b"Alpha", b"fix", b"release 1.0", b"merge", b"delta"]
def gen_history(g, n, ties=False):
    r = g.r
    commits = []
    ts = r.sample(range(1000, 1000 + 60 * n), n)
    if r.random() < 0.6:
        ts.sort()
    for i in range(n):
        ps = []
        if i:
            k = r.random()
            if k < 0.65:
                ps = [i - 1]
            elif k < 0.8 and i > 1:
                ps = r.sample(range(i), 2)
            elif k < 0.95:
                ps = [r.randrange(i)]
        w = lambda: r.choice(WORDS)
        m = w() + b" " + w()
        if r.random() < 0.25:
            m = r.choice([b"fixup! ", b"squash! ", b"  fixup! ", b"\n\tsquash! ", b"amend! ", b"Fixup! ", b"fixup ", b"xfixup! ", b"fixup!"]) + m
        if r.random() < 0.6:
            m += r.choice([b"\n", b"\n\n", b"\r\n"]) + w() + b"\n" + w() + b" tail\n"
        if r.random() < 0.3:
            m += b"\n\nfixup! not at start"
        commits.append(dict(t=ts[i], at=r.randrange(1000, 9000), msg=b64(m), parents=ps, tz=r.choice(["+0000", "+0500", "-0800"]), atz=r.choice(["+0000", "-1100", "+0900"])))
    return commits

def g_c20(g, env, summary=None):
    r = g.r
    while True:
        n = r.randrange(3, 14)
        commits = gen_history(g, n)
        cases = []
        for _ in range(24):
            pat = r.choice([r.choice(WORDS), b"^" + r.choice(WORDS), r.choice(WORDS) + b"$", b"\\A" + r.choice(WORDS), r.choice(WORDS) + b"\\Z", b"(?i)ALPHA", r.choice(WORDS) + b"|" + r.choice(WORDS), b"tail", b"nomatch", b"", b"^fixup!", b"fixup!", b"squash", b"a.*b", b"(?s)alpha.*tail", b"(?m)^beta", b"(?m)gamma$",
                            b"release 1\\.0", b"[ab]l", b"\\bfix\\b", b"\n", b"^tail", b"x*$", b"not at start", b"^beta|^gamma", b"alpha|tail$", b"^.{0,11}$"])
            rev = r.choice([None, None, "HEAD", "main", r.randrange(n), r.randrange(n)])
            start = n - 1 if rev in (None, "HEAD", "main") else rev
            cases.append(dict(pat=b64(pat), rev=rev, start=start, summary=(r.random() < 0.35) if summary is None else summary, nofixup=r.random() < 0.4, quiet=r.random() < 0.2))
        yield dict(kind="git-at", commits=commits, refs={"refs/heads/main": n - 1}, head="refs/heads/main", cases=cases)

def fixed_c19():
    # each kind of failure, with and without --quiet
    commits = [dict(t=1000 + i, at=1000 + i, msg=b64(b"alpha %d" % i), parents=[i - 1] if i else [], tz="+0000", atz="+0000") for i in range(2)]
    for quiet in (False, True):
        for summary in (False, True):
            for nofixup in (False, True):
                o = dict(quiet=quiet, summary=summary, nofixup=nofixup)
                cases = [dict(o, pat=b64(p), rev=v, start=1, badre=True) for p in (b"(", b"[a", b"*x", b"a{2,1}", b"(?<") for v in (None, "HEAD")]
                cases += [dict(o, pat=b64(b"alpha"), rev=v, start=None, norev=1) for v in ("nonexistent", "refs/heads/none", "HEAD~1000")]
                cases += [dict(o, pat=b64(b"alpha"), rev=v, start=None, norev=None) for v in ("0" * 40, "f" * 40)]
                cases += [dict(o, pat=b64(b"no such text"), rev=v, start=1) for v in (None, "HEAD", 1)] + [dict(o, pat=b64(b"alpha"), rev=None, start=1)]
                yield dict(kind="git-at", commits=commits, refs={"refs/heads/main": 1}, head="refs/heads/main", cases=cases)

def g_c19(g, env):
    r = g.r
    at = g_c20(g, env)
    while True:
        p = next(at)
        for c in p["cases"][:6]:
            k = r.random()
            if k < 0.3:
                c.update(pat=b64(r.choice([b"(", b"[a", b"*x", b"a{2,1}", b"(?<"])), badre=True)
            elif k < 0.6:
                c.update(pat=b64(b"alpha"), rev=r.choice(["nonexistent", "refs/heads/none", "HEAD~1000", "0" * 40]), start=None, norev=None)
            else:
                c.update(pat=b64(b"no such text"), quiet=r.random() < 0.5)
        yield p
        yield sess(r.choice(["bogus", "", "Upload"]), [[b"version 1\n"]])
        yield sess(r.choice(["upload", "download"]), [[b"version 1\n"], [b"quit\n"]])
        yield sess("upload", [], raw=r.choice([b"zzzz", b"0003", b"fff5", b"0009ab\n0000"[:5] + b"", b"FFFF"]))

def g_c21(g, env):
    return g_c20(g, env, summary=True)

def g_c22(g, env):
    r = g.r
    while True:
        n = r.randrange(2, 9)
        commits = gen_history(g, n)
        if r.random() < 0.6:
            base = r.choice([c["t"] for c in commits])
            for c in commits:
                if r.random() < 0.4:
                    c["t"] = base
                if r.random() < 0.4:
                    c["at"] = 5000
        refs = {"refs/heads/main": r.randrange(n)}
        for nm in ["refs/heads/a", "refs/heads/b/c", "refs/heads/zz", "refs/tags/v1", "refs/remotes/origin/x", "refs/notes/n", "refs/heads/m2", "refs/custom/q", "refs/heads/b/a", "refs/heads/y1", "refs/heads/y2"]:
            if r.random() < 0.6:
                refs[nm] = r.randrange(n)
        if r.random() < 0.6:
            refs["refs/tags/annot"] = ["tag", r.randrange(n)]
        if r.random() < 0.4:
            refs["refs/tags/tree"] = ["tree", r.randrange(n)]
        if r.random() < 0.5:
            refs["refs/remotes/origin/HEAD"] = ["sym", "refs/heads/main"]
        branches = [k[11:] for k in refs if k.startswith("refs/heads/")]
        log = []
        cur = r.choice(branches)
        for _ in range(r.randrange(0, 9)):
            nxt = r.choice(branches + ([r.randrange(n)] if r.random() < 0.4 else []) + (["gone"] if r.random() < 0.15 else []))
            log.append([cur, nxt])
            cur = nxt
        yield dict(kind="refs", commits=commits, refs=refs, pack=r.random() < 0.5, head=r.choice(["refs/heads/main", "refs/heads/main", 0]), reflog=log, sorts=["committerdate", "authordate", None, "visitdate"])

def pager_text(g, k):
    """a pager which tells that it is the one of the source k"""
    return g.r.choice(["sed 's/^/%s:/'" % k, "sed -e s/^/%s:/" % k, "cat; echo end of %s" % k, "sleep 0.1; sed 's/^/%s:/'" % k, "cat > %%F; echo %s >> %%F" % k, "sleep 0.1; cat > %F; sleep 0.05; echo done >> %F", "tr a-z A-Z", "wc -l", "cat -", "cat ", " cat",
                      "cat", "cat", "", "", "read x; sed \"s|^|%s $x:|\"" % k, "tee %%F; echo %s >> %%F" % k, "sort -r", "less", "/bin/cat", "true | cat; cat -n", "printf '%s\udce9\udcff\\n'; cat" % k, "cat -n", "catx 2>/dev/null || cat"])

def g_c24(g, env):
    r = g.r
    for p in g_c22(g, env):
        cases = []
        for _ in range(8):
            e = {}
            if r.random() < 0.5:
                e["GIT_PAGER"] = pager_text(g, "git")
            if r.random() < 0.6:
                e["PAGER"] = pager_text(g, "env")
            if r.random() < 0.1:
                e["TERM"] = "dumb"
            cases.append(dict(tty=r.random() < 0.85, sort=r.choice([None, None, "visitdate", "committerdate", "authordate"]), env=e, core=pager_text(g, "core") if r.random() < 0.5 else None, stdin_tty=r.random() < 0.7, stderr_tty=r.random() < 0.2))
        yield dict(kind="pager", commits=p["commits"], refs=p["refs"], pack=p["pack"], head=p["head"], reflog=p["reflog"], cases=cases)

def fixed_c24():
    g = Gen(random.Random(24))
    n = 400
    commits = [dict(t=1000 + i, at=5000 - i, msg=b64(b"m%d" % i), parents=[i - 1] if i else []) for i in range(3)]
    refs = {"refs/heads/main": 2, "refs/heads/b": 1, "refs/tags/v": 0}
    big = dict(refs, **{"refs/heads/%s/%03d" % ("x" * 180, i): i % 3 for i in range(n)})
    vals = [None, "", "cat", "sed 's/^/%s:/'"]
    cases = []
    for a in vals:
        for b in vals:
            for c in vals:
                e = {}
                if a is not None:
                    e["GIT_PAGER"] = a.replace("%s", "git")
                if c is not None:
                    e["PAGER"] = c.replace("%s", "env")
                cases.append(dict(tty=True, sort="committerdate", env=e, core=b if b is None else b.replace("%s", "core")))
    for slow in ("sleep 0.4; cat > %F; sleep 0.1; echo done >> %F", "sleep 0.4; cat", "cat; sleep 0.3; echo end"):
        cases += [dict(tty=True, sort=None, env={"GIT_PAGER": slow}), dict(tty=True, sort="authordate", env={}, core=slow), dict(tty=True, sort=None, env={"PAGER": slow}), dict(tty=False, sort=None, env={"GIT_PAGER": slow, "PAGER": slow}, core=slow)]
    odd = "printf '\udce9\udcff\\n'; cat -n"
    cases += [dict(tty=True, sort="committerdate", env={k: odd}) for k in ("GIT_PAGER", "PAGER")] + [dict(tty=True, sort="committerdate", env={}, core=odd)]
    for i in range(0, len(cases), 8):
        yield dict(kind="pager", commits=commits, refs=refs, pack=False, head="refs/heads/main", reflog=[["main", "b"], ["b", "main"]], cases=cases[i:i + 8])
    # more than a pipe holds, into a pager that takes its time, with standard input and error on the terminal or not
    cases = [dict(tty=True, sort="committerdate", env={"PAGER": p}, stdin_tty=i, stderr_tty=o) for p in ("sleep 0.3; sed 's/^/env:/'", "cat", "sleep 0.2; cat > %F; echo done >> %F") for i, o in ((True, False), (False, True))]
    yield dict(kind="pager", commits=commits, refs=big, pack=True, head="refs/heads/main", reflog=[["main", "b"], ["b", "main"]], cases=cases)

def g_c23(g, env):
    r = g.r
    a = g_any(g, env, rawp=0.4)
    c7, c9, c8 = g_c07(g, env), g_c09(g, env), g_c08(g, env)
    i = 0
    while True:
        i += 1
        k = i % 5
        if k == 0:
            yield next(c7)
            yield next(c9)
            yield next(c8)
        elif k in (1, 2):
            yield next(a)
        else:
            # junk at every place a request has a field
            w = [b"version", b"batch", b"put-object", b"verify-object", b"get-object", b"lock", b"list-lock", b"unlock", b"quit", b"", b" ", b"\n"]
            j = lambda: r.choice([b"", b"\n", b" ", b"=", b"=\n", b"a", b"\xff", b"\xff\n", b" \n", b"  ", g.bytes(r.randrange(1, 8)), b"0" * 64, b"size=\n", b"path=\n", b"refname=\n", b"limit=\n", b"cursor=\n", b"path=" + b"q" * 65000 + b"\n", b"cursor=" + b"z" * 65000 + b"\n", b"size=1\n", b"path=x\n", b"refname=y\n", b"limit=1\n", b"hash-algo=\n",
                                  b"%s 1\n" % g.oid(), b"%s " % g.oid(), b"%s \n" % g.oid(), DELIM, b"x" * 65516])
            reqs = []
            for _ in range(r.randrange(1, 10)):
                first = r.choice(w) + r.choice([b"", b"\n", b" ", b" \n", b" 1\n", b" " + g.oid() + b"\n", b" " + g.badoid() + b"\n", b"\n\n"])
                reqs.append([first] + [j() for _ in range(r.randrange(0, 5))])
            locks = {}
            for _ in range(r.randrange(0, 4)):
                locks[r.choice([g.oid(), b"x", g.oid() + b".lock", b"\xff\xfe", b".hidden"])] = r.choice(JUNK_RECORDS + [g.bytes(20)])
            yield dict(sess(r.choice(["upload", "download"]), reqs, locks=locks), kind="crash")

def run_crash(env, pay):
    """only: no crash, well-formed output, exit status"""
    return [b for b in run_session(env, pay) if "C23" in b[0] or "C05" in b[0]]
KINDS["crash"] = run_crash

def g_c05(g, env):
    return g_any(g, env, rawp=0.2)

def fixed_c05():
    g = Gen(random.Random(9))
    objs = {g.oid(b"S"): b"S"}
    locks = {lock_id(b"l").encode(): b"v1:5:l"}
    inner = [[b"quit\n"], [b"lock\n", b"path=evil\n", b"refname=r\n"], [b"unlock " + lock_id(b"l").encode() + b"\n"]]
    heads = [[b"bogus\n"], [b""], [DELIM], [b"version 2\n"], [b"version 1\n"], [b"get-object x\n"], [b"put-object x\n"], [b"put-object " + g.oid(b"q") + b"\n"], [b"put-object " + g.oid(b"q") + b"\n", b"size=x\n"], [b"put-object " + g.oid(b"q") + b"\n", b"size=1\n", DELIM, b"qq"],
             [b"put-object " + g.oid(b"q") + b"\n", b"size=1\n", DELIM, b"q", DELIM], [b"verify-object x\n"], [b"lock\n"], [b"lock x\n"], [b"batch\n"], [b"batch\n", b"hash-algo=md5\n", DELIM], [b"batch\n", DELIM, b"x\n"], [b"batch\n", DELIM, b"", DELIM], [b"list-lock\n", b"limit=0\n"], [b"unlock\n"], [b"unlock \xff\n"], [b"unlock q\n"]]
    for h in heads:
        for inn in inner:
            for m in ("upload", "download"):
                yield sess(m, [h + inn, [b"version 1\n"], h + [DELIM] + inn, [b"version 1\n"], h + [b""] + inn, [b"quit\n"]], objects=objs, locks=locks)
    for m in ("upload", "download"):
        for t in (frame([g.lock(b"cut")]), frame([[b"unlock " + lock_id(b"l").encode() + b"\n"]]), frame([[b"unlock " + lock_id(b"l").encode() + b"\n", b"force=true\n"]]), frame([g.put(b"cutoff")]), frame([g.put(b"cutoff", tail=[DELIM])]), frame([g.put(b"cutoff2", tail=[DELIM, b"rest"])])):
            for i in range(len(t) - 4, len(t)):
                yield sess(m, [[b"version 1\n"]], objects=objs, locks=locks, raw=t[:i])

def g_c06(g, env):
    return g_any(g, env, quitp=0.1)

def fixed_c06():
    g = Gen(random.Random(10))
    b = b"content"
    o = g.oid(b)
    lk = {lock_id(b"l").encode(): b"v1:5:l"}
    R = []
    for bad in (b"x", o[:-1], o.upper(), b""):
        R += [g.put(b, oid=bad), [b"verify-object " + bad + b"\n", b"size=7\n"], [b"batch\n", DELIM, bad + b" 5\n"]]
    for i in (b"x", b"-1", b"", b"18446744073709551616"):
        R += [g.put(b, size=i), [b"verify-object " + o + b"\n", b"size=" + i + b"\n"], [b"batch\n", DELIM, o + b" " + i + b"\n"], [b"list-lock\n", b"limit=" + i + b"\n"]]
    R += [g.put(b, args=[]), [b"verify-object " + o + b"\n"], [b"lock\n", b"path=x\n"], [b"lock\n", b"refname=x\n"], [b"lock\n"], g.put(b, size=3), g.put(b, size=8), g.put(b, oid=g.oid(b"else")), [b"list-lock\n", b"limit=0\n"], [b"batch\n", b"hash-algo=sha1\n", DELIM],
          [b"version 3\n"], [b"version\n"], [b"frob\n"], [b"verify-object " + g.oid(b"none") + b"\n", b"size=7\n"], [b"verify-object " + o + b"\n", b"size=8\n"], [b"unlock " + lock_id(b"none").encode() + b"\n"], [b"unlock zz\n"], [b"unlock \xff\n"], [b"list-lock\n", b"path=none\n"], g.lock(b"l"),
          g.put(b, args=[b"size=7\n", b"size=7\n"]), [b"lock\n", b"path=a\n", b"path=a\n", b"refname=b\n"], [b"verify-object " + o + b"\n", b"size\n"], [b"get-object " + o + b"\n"], [b"put-object " + o + b"\n", b"size=7\n"], [b"batch\n"], [b"verify-object " + o + b"\n", b"size=7\n"]]
    for r in R:
        yield sess("upload", [r], objects={o: b}, locks=lk)
    D = [[b"get-object " + g.oid(b"none") + b"\n"], [b"get-object x\n"], g.put(b), [b"verify-object " + o + b"\n", b"size=7\n"], g.lock(b"z"), [b"unlock " + lock_id(b"l").encode() + b"\n"], [b"get-object " + o + b"\n", b"junk\n"], [b"get-object " + o + b"\n", b"a=1\n", b"a=2\n"], [b"list-lock\n", b"path=none\n"], [b"get-object " + o + b"\n"]]
    for r in D:
        yield sess("download", [r], objects={o: b}, locks=lk)

def none():
    return iter(())

PROPS = {
    "C01": (g_c01, fixed_c01), "C02": (g_c02, fixed_c02), "C03": (g_c03, fixed_c03), "C04": (g_c04, none), "C05": (g_c05, fixed_c05), "C06": (g_c06, fixed_c06), "C07": (g_c07, fixed_c07), "C08": (g_c08, fixed_c08),
    "C09": (g_c09, none), "C10": (g_c10, fixed_c10), "C11": (g_c11, none), "C12": (g_c12, none), "C13": (g_c13, none), "C14": (g_c14, fixed_c14), "C15": (g_c15, none), "C16": (g_c16, fixed_c16), "C17": (g_c17, fixed_c17),
    "C18": (g_c18, fixed_c18), "C19": (g_c19, fixed_c19), "C20": (g_c20, none), "C21": (g_c21, none), "C22": (g_c22, none), "C23": (g_c23, fixed_c05),
    "C24": (g_c24, fixed_c24),
}

def nontrivial(pay):
    if pay["kind"].startswith("pkt"):
        return len(pay.get("stream", "x")) > 0
    return True

def batchable(p):
    return p["kind"] in ("pkt-read", "pkt-write")

def run_payload(env, pay):
    return KINDS[pay["kind"]](env, pay)

def run_many_pkt(env, pays):
    lines = []
    for p in pays:
        if p["kind"] == "pkt-read":
            lines.append("R %s %d %d %s" % (hx(ub64(p["stream"])), p["max"], p["intr"], ",".join(p["ops"])))
        else:
            lines.append("W %d %d %s" % (p["max"], p["lim"], ",".join(o[0] + hx(ub64(o[1:])) for o in p["ops"])))
    outs = env.drive(lines)
    return [judge_pkt_read(p, o) if p["kind"] == "pkt-read" else judge_pkt_write(p, o) for p, o in zip(pays, outs)]

def explore(env, prop, seed, maxcases):
    gen, fixed = PROPS[prop]
    rnd = random.Random("%s/%s" % (prop, seed))
    g = Gen(rnd)
    it = itertools.chain(fixed(), gen(g, env))
    n, distinct, samples = 0, set(), []
    viol = []
    others = {}
    batch = []
    nfixed = 0
    def absorb(p, bad):
        nonlocal n
        n += 1
        if nontrivial(p):
            distinct.add(dist(p))
        if len(samples) < 3 and n % 7 == 1:
            samples.append(json.dumps(p)[:600])
        hits = [b for b in bad if prop in b[0]]
        for b in bad:
            if prop not in b[0]:
                others[",".join(b[0])] = b[1][:200]
        if hits:
            viol.append(dict(what=hits[0][1], payload=p))
    while n + len(batch) < maxcases and time.time() < env.deadline and not viol:
        p = next(it)
        if batchable(p):
            batch.append(p)
            if len(batch) >= 250:
                for q, bad in zip(batch, run_many_pkt(env, batch)):
                    absorb(q, bad)
                batch = []
        else:
            absorb(p, run_payload(env, p))
    if batch and not viol:
        for q, bad in zip(batch, run_many_pkt(env, batch)):
            absorb(q, bad)
    return dict(evaluations=n, distinct_nontrivial=len(distinct), samples=samples, violations=viol[:1], others=others, kills=getattr(env, "kills", 0), subcases=getattr(env, "cases", 0))

def shrink(env, prop, v):
    """drops requests that are not needed"""
    p = v["payload"]
    if p["kind"] not in ("session", "crash"):
        return v
    end = time.time() + 10
    changed = True
    while changed and time.time() < end:
        changed = False
        for key in ("reqs",):
            i = 0
            while i < len(p[key]) and time.time() < end:
                q = dict(p)
                q[key] = p[key][:i] + p[key][i + 1:]
                bad = [b for b in run_payload(env, dict(q)) if prop in b[0]]
                if bad:
                    p = q
                    v = dict(what=bad[0][1], payload=p)
                    changed = True
                else:
                    i += 1
    return v

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["explore", "replay"])
    ap.add_argument("--prop")
    ap.add_argument("--bins", required=True)
    ap.add_argument("--scratch", required=True)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--secs", type=float, default=60)
    ap.add_argument("--cases", type=int, default=10**9)
    ap.add_argument("--out")
    ap.add_argument("--payload")
    a = ap.parse_args()
    env = Env(a.bins, a.scratch, a.seed, a.tier, time.time() + a.secs)
    os.umask(0o022)
    if a.cmd == "replay":
        p = json.load(open(a.payload))
        p = p.get("payload", p)
        for tags, what in run_payload(env, p):
            print(",".join(tags), what)
        return
    r = explore(env, a.prop, a.seed, a.cases)
    r["violations"] = [shrink(env, a.prop, v) for v in r["violations"]]
    r["strace"] = getattr(env, "_strace", None)
    json.dump(r, open(a.out, "w"))

if __name__ == "__main__":
    main()
