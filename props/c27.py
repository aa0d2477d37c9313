"""C27: hash, id, time, key-check and path helpers do what they state."""
import base64
import datetime
import hashlib
import os
import random
import re
import shutil
import tempfile
import time

from vlib import gen, mined, keys as K, ref_trie as R, tries as T
from vlib.core import scenario
from Crypto.PublicKey import RSA, ECC, DSA
from Crypto.Util.asn1 import DerSequence
from pymt.keypairs import RsaKeyPair
from pymt.utils.hash import keccak_hash, keccak_hash_list
from pymt.utils.utils import Utils

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every helper runs on generated and hostile inputs next to hashlib, an independent keccak, the key library, the clock and the file system"
LEVEL_NOTE = "in the executed runs every helper agreed with the independent answer; the key check never raised unless it was asked to"
RULE = "a case is a batch of inputs for one helper; non-trivial always"
REQUIRED = ["keccak", "keccak_list", "sha256", "sha512", "slow_keccak", "ids", "timestamps", "zones", "key_true", "key_wrong_kind", "key_malformed",
            "key_raised_on_request", "key_zero_factor", "key_mutated", "generated_rsa", "generated_ecc", "file_true", "file_false", "dir_true", "dir_false",
            "relative", "absolute", "symlink", "wrong_type_refused"]
ASSUMPTIONS = ["a key is well-formed when the key library loads it without a passphrase"]


# ---------------------------------------------------------------------- hashes
BLOCKS = (0, 1, 2, 55, 56, 63, 64, 65, 110, 111, 112, 113, 127, 128, 129, 134, 135, 136, 137, 271, 272, 273, 1000, 4096)


def gen_hash(rng, size):
    out = []
    for _ in range(8):
        n = rng.choice(BLOCKS) if rng.random() < 0.6 else rng.randrange(400)
        out.append(bytes([rng.choice((0, 0x80, 0xFF, 0x41))]) * n if rng.random() < 0.3 else rng.randbytes(n))
    cuts = sorted(rng.random() for _ in range(rng.randrange(0, 6)))
    return {"data": out, "cuts": cuts, "empties": rng.random() < 0.4}


def check_hash(mon, data):
    k = R.keccak256(data)
    mon.check(keccak_hash(data) == k, "keccak of %s", T.hx(data))
    mon.check(keccak_hash(data, hexdigest=True) == k.hex().encode() and keccak_hash(data, True) == k.hex().encode(), "hex keccak of %s", T.hx(data))
    mon.check(keccak_hash(data, hexdigest=False) == k, "keccak of %s", T.hx(data))
    mon.saw("keccak")
    for name in ("sha256", "sha512"):
        h = hashlib.new(name, data)
        hexd = h.hexdigest().encode()
        mon.check(getattr(Utils, name)(data) == hexd and getattr(Utils, name)(data, finalize=True) == hexd, "%s of %s", name, T.hx(data))
        mon.check(Utils.hash_data(data, type=name) == hexd, "hash_data(type=%s) of %s", name, T.hx(data))
        for o in (getattr(Utils, name)(data, finalize=False), Utils.hash_data(data, finalize=False, type=name)):
            mon.check(o.digest() == h.digest() and o.hexdigest() == h.hexdigest(), "the %s object of %s", name, T.hx(data))
        o = getattr(Utils, name)(data, finalize=False)
        o.update(b"more")
        mon.check(o.hexdigest() == hashlib.new(name, data + b"more").hexdigest(), "the %s object cannot go on", name)
        mon.saw(name)
    mon.check(Utils.hash_data(data) == hashlib.sha256(data).hexdigest().encode(), "hash_data of %s", T.hx(data))


def run_hash(case, mon):
    mon.mark()
    for d in case["data"]:
        check_hash(mon, d)
        at = [int(c * (len(d) + 1)) for c in case["cuts"]]
        parts = [d[a:b] for a, b in zip([0] + at, at + [len(d)])]
        if case["empties"]:
            parts = [x for p in parts for x in (b"", p)] + [b""]
        k = R.keccak256(d)
        keep = list(parts)
        mon.check(keccak_hash_list(parts) == k and keccak_hash_list(parts, hexdigest=True) == k.hex().encode(), "keccak of the parts of %s", T.hx(d))
        mon.check(keccak_hash_list(tuple(parts)) == k and parts == keep, "keccak of a tuple, or the list changed")
        mon.saw("keccak_list")
        mon.state(d, at)
    mon.check(keccak_hash_list([]) == R.keccak256(b""), "keccak of no parts")
    mon.check(keccak_hash_list(case["data"]) == R.keccak256(b"".join(case["data"])), "keccak of the list")
    if case["cuts"]:
        d = case["data"][0][:300]
        mon.check(keccak_hash(d) == R.slow_keccak256(d), "keccak of %s against the second implementation", T.hx(d))
        mon.saw("slow_keccak")
    for bad in ("text", 5, None, [b"x"]):
        for fn in (Utils.hash_data, Utils.sha256, Utils.sha512):
            r = T.attempt(fn, bad)
            mon.check(T.raised(r) and isinstance(r.exc, TypeError), "hashing %r gave %r", bad, r)
            mon.saw("wrong_type_refused")
    for bad in ("md5", "SHA256", "", "sha1", "sha-256", "sha2567"):
        r = T.attempt(Utils.hash_data, b"x", type=bad)
        mon.check(T.raised(r), "hash type %r gave %r", bad, r)


def gen_length(i):
    return {"n": mined.BIG_SIZES[i % len(mined.BIG_SIZES)], "i": i}


def run_length(case, mon):
    """Data of one length, whole and in many parts."""
    rng = random.Random(case["i"])
    n = case["n"]
    mon.mark()
    d = rng.randbytes(n)
    check_hash(mon, d)
    check_hash(mon, b"\x00" * n)
    k = R.keccak256(d)
    step = max(1, n // 70)
    parts = [d[j: j + step] for j in range(0, n, step)]
    mon.check(keccak_hash_list(parts) == k and keccak_hash_list(parts, hexdigest=True) == k.hex().encode(), "keccak of %d parts of %d bytes", len(parts), n)
    m = min(n, 3000)
    mon.check(keccak_hash_list([d[j: j + 1] for j in range(m)]) == R.keccak256(d[:m]), "keccak of %d parts of one byte", m)
    mon.saw("keccak_list")
    mon.state(n)


# ------------------------------------------------------------------------- ids
def gen_n(rng, size):
    return {"n": 3000, "seed": rng.getrandbits(30)}


HEX32 = re.compile(r"[0-9a-f]{32}\Z")


def run_ids(case, mon):
    mon.mark()
    random.seed(case["seed"])  # ids must not come from a generator others may seed
    a = [Utils.get_id_string() for _ in range(case["n"])]
    random.seed(case["seed"])
    a += [Utils.get_id().decode("ascii") for _ in range(case["n"])]
    mon.check(len(set(a)) == len(a), "ids repeat")
    for x in a:
        mon.check(isinstance(x, str) and HEX32.match(x), "%r is no 32-digit hex id", x)
    mon.check(isinstance(Utils.get_id(), bytes), "get_id gives %r", Utils.get_id())
    for i in range(32):  # every digit but the fixed version digits varies
        if i not in (12, 16):
            mon.check(len({x[i] for x in a}) == 16, "digit %d of the ids takes %d values", i, len({x[i] for x in a}))
    for x in a[:50]:
        mon.state(x)
    mon.saw("ids", len(a))


# ------------------------------------------------------------------ timestamps
ZONES = ["UTC", "UTC0", "CET-1CEST", "EST5EDT", "IST-5:30", "NPT-5:45", "NST3:30", "LINT-14", "AoE12", "XXX-0:01", "YYY0:59", "ZZZ-12:45", "Asia/Kolkata", "America/New_York"]


def gen_zone(rng, size):
    return {"zone": rng.choice(ZONES)}


def run_time(case, mon):
    mon.mark()
    old = os.environ.get("TZ")
    os.environ["TZ"] = case["zone"]
    time.tzset()
    try:
        for form in (0, 1):
            t0 = time.time()
            s = Utils.get_timestamp_string() if form == 0 else Utils.get_timestamp()
            t1 = time.time()
            mon.check(isinstance(s, str if form == 0 else bytes), "the timestamp is %r", s)
            s = s if form == 0 else s.decode()
            mon.check(re.match(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d [+-]\d{4}(\d\d)?\Z", s), "the timestamp is %r", s)
            d = Utils.from_timstamp_string(s)
            off = time.localtime(t0).tm_gmtoff
            mon.check(d.utcoffset() is not None and d.utcoffset().total_seconds() == off, "%r in zone %s (%d s east) parses with offset %r", s, case["zone"], off, d.utcoffset())
            mon.check(int(t0) <= d.timestamp() <= int(t1) and d.microsecond == 0, "%r parses to %r, the clock showed %r to %r", s, d.timestamp(), t0, t1)
            mon.check(d.strftime(Utils.DATETIME_FORMAT) == s, "%r parses to a time written %r", s, d.strftime(Utils.DATETIME_FORMAT))
            mon.saw("timestamps")
        a = datetime.datetime.now()
        n = Utils.get_datetime_stamp()
        mon.check(a <= n.replace(tzinfo=None) <= datetime.datetime.now(), "the time is %r", n)
        mon.saw("zones")
        mon.state(case["zone"])
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


def gen_written(rng, size):
    return {"parts": [(rng.randrange(1000, 10000), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60),
                       rng.choice((0, 60, -60, 330, 345, -210, 840, -720, 1, -1, rng.randrange(-1439, 1440)))) for _ in range(30)]}


def run_written(case, mon):
    """Timestamp strings of other times and zones."""
    mon.mark()
    for y, mo, d, h, mi, s, off in case["parts"]:
        z = datetime.timezone(datetime.timedelta(minutes=off))
        want = datetime.datetime(y, mo, d, h, mi, s, tzinfo=z)
        text = "%04d-%02d-%02d %02d:%02d:%02d %s%02d%02d" % (y, mo, d, h, mi, s, "-" if off < 0 else "+", abs(off) // 60, abs(off) % 60)
        got = Utils.from_timstamp_string(text)
        mon.check(got == want and got.utcoffset() == want.utcoffset(), "%r parses to %r", text, got)
        mon.saw("timestamps")
        mon.state(text)


# ------------------------------------------------------------------------ keys
_forms = []


def forms():
    """(bytes, kind) with kind public, private or None (not loadable)."""
    if not _forms:
        k = RSA.generate(1024)
        p = k.public_key()
        pw = {"passphrase": "x"}
        for f in ("PEM", "DER"):
            for pk in (1, 8):
                _forms.append((k.export_key(f, pkcs=pk), "private"))
            _forms.append((p.export_key(f), "public"))
        _forms.append((p.export_key("OpenSSH"), "public"))
        _forms.append((DerSequence([k.n, k.e]).encode(), "public"))
        body = base64.encodebytes(DerSequence([k.n, k.e]).encode())
        _forms.append((b"-----BEGIN RSA PUBLIC KEY-----\n" + body + b"-----END RSA PUBLIC KEY-----", "public"))
        _forms.append((k.export_key("PEM", **pw), None))
        _forms.append((k.export_key("PEM", pkcs=8, protection="PBKDF2WithHMAC-SHA1AndAES128-CBC", prot_params={"iteration_count": 10}, **pw), None))
        _forms.append((k.export_key("DER", pkcs=8, protection="scryptAndAES128-CBC", prot_params={"iteration_count": 16}, **pw), None))
        for c in ("P-256", "P-384", "P-521", "ed25519"):
            e = ECC.generate(curve=c)
            _forms.append((e.export_key(format="PEM").encode(), None))
            _forms.append((e.export_key(format="DER"), None))
            _forms.append((e.public_key().export_key(format="PEM").encode(), None))
            _forms.append((e.public_key().export_key(format="OpenSSH").encode(), None))
        for w in (b"RSA PRIVATE KEY", b"PUBLIC KEY", b"PRIVATE KEY", b"CERTIFICATE", b"OPENSSH PRIVATE KEY", b"ENCRYPTED PRIVATE KEY"):
            _forms.append((b"-----BEGIN " + w + b"-----\nMAA=\n-----END " + w + b"-----", None))
            _forms.append((b"-----BEGIN " + w + b"-----", None))
        _forms.extend((x, None) for x in (b"", b"\x00", b"0", b"0\x00", b"ssh-rsa", b"ssh-rsa ", b"ssh-rsa AAAA", b"ssh-rsa !", b"Hello World", b"ssh-rsa AAAAB3NzaC1yc2E=",
                                          b"\x30\x80", b"\x30\x82\xff\xff", b"-----", b"\xff" * 50, b"-----BEGIN"))
    return _forms


def library(b):
    try:
        return "private" if RSA.import_key(b).has_private() else "public"
    except Exception:
        return None


def check_key(mon, b, what):
    want = library(b)
    for kind in ("public", "private"):
        g = T.attempt(Utils.rsa_key_valid, b, kind)
        mon.check(g is (want == kind), "%s is %s; asked for a %s key the check answered %r: %s", what, "malformed" if want is None else "a %s key" % want, kind, g, b.hex()[:600])
        g = T.attempt(Utils.rsa_key_valid, b, key_type=kind, raise_exeptions=False)
        mon.check(g is (want == kind), "with raise_exeptions=False %s gave %r", what, g)
        g = T.attempt(Utils.rsa_key_valid, b, kind, True)
        if want is None:
            mon.check(T.raised(g) or g is False, "%s passes as a %s key when exceptions are requested", what, kind)
            mon.check(T.raised(g), "no exception for %s although requested", what)
            mon.saw("key_raised_on_request")
        elif want == kind:
            mon.check(g is True, "with exceptions requested %s gave %r", what, g)
        else:
            mon.check(T.raised(g) or g is False, "%s passes as a %s key when exceptions are requested", what, kind)
        mon.saw("key_malformed" if want is None else "key_true" if want == kind else "key_wrong_kind")
    if want != "public":
        mon.check(Utils.rsa_key_valid(b) is False, "the default kind accepts %s", what)
    else:
        mon.check(Utils.rsa_key_valid(b) is True, "the default kind refuses %s", what)
    mon.state(b)
    return want


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice((1, 1, 1, 2, 3, 6))):
        if not b:
            return b"0"
        p = min(int(rng.expovariate(1 / 30)), len(b) - 1) if rng.random() < 0.6 else rng.randrange(len(b))
        r = rng.randrange(7)
        if r == 0:
            b[p] = rng.choice((0, 1, 2, 3, 48, 127, 128, 255, rng.randrange(256)))
        elif r == 1:
            del b[p:]
        elif r == 2:
            del b[p:p + rng.randrange(1, 8)]
        elif r == 3:
            b[p:p] = rng.randbytes(rng.randrange(1, 4))
        elif r == 4:
            b[p] ^= 1 << rng.randrange(8)
        elif r == 5:
            del b[:p]
        else:
            b += rng.choice((b"\n", b" ", b"\x00", b"x"))
    return bytes(b)


def gen_keys(rng, size):
    return {"seed": rng.getrandbits(30)}


def run_keys(case, mon):
    rng = random.Random(case["seed"])
    mon.mark()
    fs = forms()
    for b, kind in rng.sample(fs, 8):
        got = check_key(mon, b, "a key")
        mon.check(got == kind, "harness: expected %r, loaded %r", kind, got)
    for _ in range(20):
        check_key(mon, mutate(rng, rng.choice(fs)[0]), "an altered key")
        mon.saw("key_mutated")
    k = RSA.import_key(fs[0][0])
    base = [0, k.n, k.e, k.d, k.p, k.q, k.d % (k.p - 1), k.d % (k.q - 1), pow(k.p, -1, k.q)]
    for _ in range(6):  # well-formed containers of impossible numbers
        x = list(base)
        i = rng.randrange(9)
        x[i] = rng.choice((0, 0, 1, -1, 2, -base[i], base[i] + 1, 2 ** 64))
        if x[4] == 0 or x[5] == 0:
            mon.saw("key_zero_factor")
        check_key(mon, DerSequence(x[: rng.choice((9, 9, 9, 8, 6, 3))]).encode(), "a private key with a wrong number")
        check_key(mon, DerSequence([rng.choice((0, 1, -1, 15, k.n)), rng.choice((0, 1, 2, -1, 3, k.n))]).encode(), "a public key with a wrong number")
    for q in K.pool(RsaKeyPair)[:1]:
        mon.check(Utils.rsa_key_valid(q.public_key, "public") is True and Utils.rsa_key_valid(q.public_key, "private") is False, "the public key of a key pair")
    for args in (("text",), (None,), (5,), (bytearray(b"x"),), (b"x", 5), (b"x", None), (b"x", "public", 1), (b"x", "public", None)):
        r = T.attempt(Utils.rsa_key_valid, *args)
        mon.check(T.raised(r) and isinstance(r.exc, TypeError), "rsa_key_valid%r gave %r", args, r)
        mon.saw("wrong_type_refused")
    for kind in ("", "Public", "both", "privat"):
        r = T.attempt(Utils.rsa_key_valid, fs[0][0], kind)
        mon.check(T.raised(r), "key type %r gave %r", kind, r)


def run_generated(case, mon):
    mon.mark()
    a = Utils.generate_rsa_keypair()
    mon.check(isinstance(a, bytes) and check_key(mon, a, "a generated key") == "private", "the generated key is %s", T.hx(a))
    k = RSA.import_key(a)
    pub = k.public_key().export_key()
    mon.check(check_key(mon, pub, "its public key") == "public", "its public key does not load")
    mon.check(RSA.import_key(Utils.generate_rsa_keypair()).n != k.n, "the same key was generated twice")
    mon.saw("generated_rsa")
    for c in ("P-256", "p-256", "P-384", "p-384", "P-521", "p-521", None):
        e = Utils.generate_ecc_key(curve=c) if c else Utils.generate_ecc_key()
        mon.check(isinstance(e, bytes), "generate_ecc_key gives a %s", type(e).__name__)
        x = ECC.import_key(e)
        mon.check(x.has_private(), "the generated ECC key is not a private key")
        mon.check(x.curve.lower().replace("-", "")[-4:] in ((c or "p-256").replace("-", "").lower(), "p" + (c or "p-256")[-3:]), "asked for %s, got %s", c, x.curve)
        mon.check(check_key(mon, e, "an ECC key") is None, "an ECC key passes as an RSA key")
        mon.check(ECC.import_key(Utils.generate_ecc_key(curve=c or "P-256")) != x, "the same key was generated twice")
        mon.saw("generated_ecc")


# ----------------------------------------------------------------------- paths
NAMES = ["a", "a.txt", "b c", "ünï", "..x", ".hidden", "-x", "~", "x" * 200, "a\nb", "*", "$HOME", "%41", "./odd".replace("/", "_")]


def gen_paths(rng, size):
    return {"seed": rng.getrandbits(30)}


def run_paths(case, mon):
    rng = random.Random(case["seed"])
    mon.mark()
    old = os.getcwd()
    base = tempfile.mkdtemp(prefix="verif-c27-")
    try:
        here = os.path.join(base, "here")
        os.mkdir(here)
        known = []
        dirs = [here, base]
        for _ in range(rng.randrange(3, 12)):
            d = rng.choice(dirs)
            n = rng.choice(NAMES)
            p = os.path.join(d, n)
            if os.path.lexists(p):
                continue
            kind = rng.randrange(5)
            if kind == 0:
                os.mkdir(p)
                dirs.append(p)
            elif kind == 1:
                open(p, "w").close()
            elif kind == 2:
                with open(p, "w") as f:
                    f.write("x")
                os.chmod(p, 0)
            elif kind == 3 and known:
                os.symlink(rng.choice(known), p)
                mon.saw("symlink")
            else:
                os.symlink(os.path.join(base, "nowhere"), p)
                mon.saw("symlink")
            known.append(p)
        os.chdir(here)
        cands = []
        for p in known + dirs:
            cands += [p, p + "x", p[:-1], p + "/", p + "/none", os.path.join(base, "none")]
            rel = os.path.relpath(p, here)
            cands += ["./" + rel, "./" + rel + "x", "./" + rel + "/", "./././" + rel, "./" + "sub/../" + rel]
        cands += ["./", "./.", "./..", "./here", "./../here", "./../../" + os.path.basename(base), "/", "", "./" + "y" * 300, "/" + "y" * 300]
        for c in cands:
            # the file system's own answer
            wf = wd = False
            try:
                st = os.stat(c)
                wf, wd = (st.st_mode & 0o170000) == 0o100000, (st.st_mode & 0o170000) == 0o040000
            except OSError:
                pass
            mon.check(Utils.file_exists(c) is wf, "file_exists(%r) answered %r", c, not wf)
            mon.check(Utils.dir_exists(c) is wd, "dir_exists(%r) answered %r", c, not wd)
            mon.saw("file_true" if wf else "file_false")
            mon.saw("dir_true" if wd else "dir_false")
            mon.saw("relative" if c.startswith("./") else "absolute")
        if known:
            p = known[0]
            if os.path.isfile(p):
                os.unlink(p)
                mon.check(Utils.file_exists(p) is False, "a removed file exists")
        # another working directory
        os.chdir(base)
        mon.check(Utils.dir_exists("./here") is True and Utils.file_exists("./here") is False, "after changing the working directory")
        for bad in (None, 5, b"x", ["x"]):
            for fn in (Utils.file_exists, Utils.dir_exists):
                r = T.attempt(fn, bad)
                mon.check(T.raised(r) and isinstance(r.exc, TypeError), "%r gave %r", bad, r)
                mon.saw("wrong_type_refused")
        mon.check(sorted(os.listdir(base)) == sorted({os.path.basename(x) for x in known if os.path.dirname(x) == base and os.path.lexists(x)} | {"here"}), "the checks changed the directory")
        mon.state(case["seed"])
    finally:
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)


SCENARIOS = [
    scenario("hashes", gen_hash, run_hash, 1500, 40000),
    scenario("lengths", gen_length, run_length, len(mined.BIG_SIZES), enum=True),
    scenario("ids", gen_n, run_ids, 8, 100),
    scenario("clock", gen_zone, run_time, 200, 3000),
    scenario("written", gen_written, run_written, 200, 5000),
    scenario("keys", gen_keys, run_keys, 200, 8000),
    scenario("generated", gen_n, run_generated, 8, 120),
    scenario("paths", gen_paths, run_paths, 400, 8000),
]
