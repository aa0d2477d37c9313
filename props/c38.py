"""C38: the package acts through its results alone."""
import base64
import importlib
import json
import os
import pickle
import random
import shutil
import tempfile

from Crypto.PublicKey import RSA
from vlib import boot, core, gen, keys as K, ref_merkle as M, tries as T, transcript as X
from vlib.core import scenario
from vlib.watch import Watch
from pymt.empt import EMPT, SparseEMPT, RootEMPT, DataReference
from pymt.keypairs import RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof
from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Node
from pymt.utils.utils import Utils

ID = "C38"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the interpreter's audit events below the package's frames, captured standard streams, logs and warnings, and process-wide "
             "settings compared around each workload; everything handed out or raised scanned for secrets")
LEVEL_NOTE = ("the executed workloads wrote nothing, opened nothing, started nothing and changed nothing besides what they were asked to, ran nothing they decoded, and "
              "showed no secret outside the forms meant to hold it")
RULE = ("a case is a workload of random calls (valid, refused and hostile) of all parts run under watch, a series of key files saved and loaded in a scratch directory, "
        "hostile bytes given to every decoder, or secrets used in every call that takes them; non-trivial when the watched calls were made")
REQUIRED = ["watched", "settings_compared", "events_seen", "directories_compared", "saved_files", "odd_names", "hostile_decodes", "texts_scanned", "secrets", "monitor_tested", "other_workloads", "large_workloads"]
ASSUMPTIONS = ["reading the interpreter's, the libraries' and the package's own files is allowed; so are deprecation warnings",
               "the key check, when asked to raise, names the bytes it was given; the generated key text is meant to hold the key"]

CLASSES = (RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair)
_tested = []


def test_monitor(mon):
    """The watch notices things done under a file name of the package (once per process)."""
    if _tested:
        return
    d = tempfile.mkdtemp(prefix="verif-c38-")
    try:
        ns = {}
        src = ("import os, sys, random, subprocess, socket, logging, warnings\n"
               "def a(d): print('x')\n"
               "def b(d): open(os.path.join(d, 'f'), 'w').close()\n"
               "def c(d): os.environ['VERIF_C38'] = '1'\n"
               "def e(d): sys.setrecursionlimit(sys.getrecursionlimit() + 1)\n"
               "def f(d): random.random()\n"
               "def g(d): logging.warning('x')\n"
               "def h(d): warnings.warn('x')\n"
               "def i(d): os.write(2, b'x')\n"
               "def j(d): socket.socket().close()\n"
               "def k(d): d_ = os.open('/dev/null', os.O_RDONLY)\n"
               "def l(d): os.path.isfile(os.path.join(d, 'f'))\n")
        exec(compile(src, os.path.join(boot.PKG, "mpt.py"), "exec"), ns)
        limit = __import__("sys").getrecursionlimit()
        state = random.getstate()
        for name in "abcefghijkl":
            w = Watch()
            with w:
                ns[name](d)
            assert bool(w.found) == (name != "l"), "the watch misjudges %s: %s" % (name, w.found)
        os.environ.pop("VERIF_C38", None)
        __import__("sys").setrecursionlimit(limit)
        random.setstate(state)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _tested.append(1)


def judge(mon, w, what):
    mon.saw("settings_compared", w.items)
    mon.saw("events_seen", w.seen)
    mon.check(not w.found, "%s: the package %s", what, "; ".join(w.found[:4]))
    mon.saw("watched")


def listing(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs:
            p = os.path.join(base, n)
            out[os.path.relpath(p, d) + "/"] = os.readlink(p) if os.path.islink(p) else ""
        for n in files:
            p = os.path.join(base, n)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = os.readlink(p)
                continue
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = (f.read(), os.stat(p).st_mode, os.stat(p).st_mtime_ns)
    return out


class Scratch:
    """A scratch directory to work in, and what was beside it before."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-c38-")
        self.cwd = os.getcwd()
        os.chdir(self.d)
        return self.d

    def __exit__(self, *exc):
        os.chdir(self.cwd)
        shutil.rmtree(self.d, ignore_errors=True)


# ---------------------------------------------------------------- all parts
def gen_quiet(rng, size):
    return {"seed": rng.getrandbits(48), "part": rng.choice(X.PARTS)}


def written(rng):
    """What the crypto parts of the transcript read."""
    a, b = K.pool(RsaKeyPair)[:2]
    pw, pw2 = "pass %d" % rng.randrange(99), "word %d" % rng.randrange(99)
    data = gen.rbytes(rng, rng.randrange(60))
    with Scratch() as d:
        a.to_key_file(os.path.join(d, "k"), pw)
        with open(os.path.join(d, "k"), "rb") as f:
            file = f.read()
    return {"a": a.to_key_string(pw), "b": b.to_key_string(pw), "pw": pw, "pw2": pw2, "file": file, "data": data, "sig": a.sign(data), "apub": a.public_key,
            "enc": a.encrypt(data, b.public_key), "pwenc": Utils.encrypt(data, pw2), "nick": "nick %d" % rng.randrange(99)}


def run_quiet(case, mon):
    test_monitor(mon)
    mon.saw("monitor_tested")
    rng = random.Random(case["seed"])
    part = case["part"]
    made = written(rng) if part in ("crypto", "badkeys") else None
    with Scratch() as d:
        os.mkdir("tmp")
        was = tempfile.tempdir
        tempfile.tempdir = os.path.join(d, "tmp")   # what the transcript itself makes
        try:
            with open("bystander", "w") as f:
                f.write("here")
            before = listing(d)
            home = sorted(os.listdir(os.path.expanduser("~")))
            tmp = sorted(os.listdir("/tmp"))
            w = Watch([os.path.join(d, "tmp")])
            with w:
                lines = X.transcript(case["seed"], (part,), made)
            judge(mon, w, "the calls of part %s" % part)
            mon.check(listing(d) == before, "the calls of part %s left something in the working or the temporary directory: %s", part, sorted(set(listing(d)) ^ set(before)))
            mon.check(sorted(os.listdir(os.path.expanduser("~"))) == home, "the calls of part %s left something in the home directory", part)
            new = [n for n in set(os.listdir("/tmp")) - set(tmp) if not n.startswith(("verif", "pymp-", "bash_jobs", "pytest"))]
            mon.saw("others_in_tmp", len(new))
            mon.saw("directories_compared", 2)
            mon.state(part, len(lines), w.seen)
        finally:
            tempfile.tempdir = was
    if part not in ("crypto", "badkeys"):
        quiet_objects(case, mon, rng)
        quiet_failures(case, mon, rng)
    mon.mark()


class Fails:
    """A value, or a storage, that does not always do what it should."""

    def __init__(self, rng):
        self.rng, self.bad = rng, False

    def encode_rlp(self):
        if self.bad:
            raise ValueError("no encoding")
        return b"encoded"

    @staticmethod
    def decode_rlp(data):
        return data


class Unreliable(dict):
    bad = ()

    def _may(self, what):
        if what in self.bad:
            raise OSError("the storage is away")

    def __getitem__(self, k):
        self._may("get")
        return super().__getitem__(k)

    def __setitem__(self, k, v):
        self._may("set")
        super().__setitem__(k, v)

    def __delitem__(self, k):
        self._may("del")
        super().__delitem__(k)

    def __iter__(self):
        self._may("iter")
        return super().__iter__()

    def keys(self):
        self._may("iter")
        return super().keys()


def quiet_failures(case, mon, rng):
    """Operations that fail halfway, each looked at on its own."""
    w = Watch()
    with w:
        nodes, data = Unreliable(), Unreliable()
        t = EMPT(nodes, data, secure=rng.random() < 0.4)
        s = SparseEMPT({})
        v = Fails(rng)
        keys = [rng.randbytes(rng.choice((1, 2, 2, 20))) for _ in range(6)]
        for k in keys:
            t.update(k, rng.choice((v, b"x" * 40, b"y")))
            s.update(k, v)
        t.update(keys[0], v)
        for _ in range(12):
            v.bad = rng.random() < 0.4
            nodes.bad = rng.choice(((), ("get",), ("set",), ("del",), ("iter",)))
            data.bad = rng.choice(((), ("get",), ("set",), ("del",), ("iter",)))
            k = rng.choice(keys)
            calls = [(t.build_trie,), (t.update, k, v), (t.update, k, b"new"), (t.delete, k), (t.get, k), (t.get_reference, k), (t.get_sparse_trie,), (t.get_proof_of_inclusion, k),
                     (t.get_proof_of_exclusion, k), (t.contains, k), (t.clear,), (t.pop, k), (t.setdefault, k, v), (list, t), (len, t), (s.update, k, v), (s.delete, k), (dict, t)]
            for c in rng.sample(calls, 5) + calls[:1]:
                T.attempt(*c)
    judge(mon, w, "operations that fail halfway")


def quiet_objects(case, mon, rng):
    """Making, printing, comparing and dropping objects of every kind."""
    keys = gen.universe(rng, 2) or [b"k"]
    w = Watch()
    with w:
        t, e, s, m = MPT({}, secure=rng.random() < 0.5), EMPT({}, {}), SparseEMPT({}), MerkleTree(secure=rng.random() < 0.5, hash_type=rng.choice(M.HASHES))
        for k in keys:
            for o in (t, e, s):
                o.update(k, b"v" * rng.choice((1, 40)))
            m.put(k)
        m.make_tree()
        objs = [t, e, s, m, e.get_root_trie(), e.get_sparse_trie(), t.get_proof_of_inclusion(keys[0]), m.get_proof_of_inclusion(keys[0]), e.get_reference(keys[0]), NibblePath(keys[0])]
        objs += [Node.decode(t.root())] if len(t.root()) != 32 else []
        for o in objs:
            for f in (str, repr, bool, hash, lambda x: x == x, lambda x: x != 5, lambda x: "%s" % x, list):
                T.attempt(f, o)
        for _ in range(4):
            k = rng.choice(keys)
            T.attempt(t.delete, k)
            T.attempt(e.pop, k)
            T.attempt(s.delete, k)
        T.attempt(e.clear)
        T.attempt(e.build_trie)
        Utils.get_id(), Utils.get_id_string(), Utils.get_timestamp(), Utils.get_timestamp_string(), Utils.get_datetime_stamp()
        Utils.file_exists("./nothing"), Utils.dir_exists("/nothing"), T.attempt(Utils.generate_ecc_key)
        del objs, t, e, s, m
    judge(mon, w, "objects made, printed, compared and dropped")


# ---------------------------------------------------------------- key files
NAMES = ["key", "key.pem", "a b", "~", "~root", "~/key", "$HOME", "${HOME}", "%s", "%(nickname)s", "{nickname}", "ключ", "key\n", " key", "key ", "*", "key.json", ".key", "k" * 200,
         "-key", "key~", "key.tmp", "key.bak", "é", "e\u0301", "K", "Key", "con", "a;b", "a&b", "`a`", "$(touch x)", "'", '"', "\\", "a\\b", "file:key", "key.gz", "0", "1"]


def gen_files(rng, size):
    return {"seed": rng.getrandbits(48), "names": rng.sample(NAMES, 5), "cls": rng.randrange(3)}


def run_files(case, mon):
    rng = random.Random(case["seed"])
    cls = CLASSES[case["cls"]]
    kp = cls(_generate_keys=False)
    loaded = []
    with Scratch() as d:
        for n in ("sub", "~", "sub/deep"):
            os.makedirs(n, exist_ok=True)
        with open("bystander", "wb") as f:
            f.write(b"here")
        for n in case["names"]:
            pw = "pass %d" % rng.getrandbits(40)
            src = rng.choice(K.pool(cls))
            form = rng.randrange(4)
            name = n if form == 0 else os.path.join(d, n) if form == 1 else "./" + n if form == 2 else os.path.join("sub", "deep", "..", n)
            if n in ("~",) and form != 3:
                name = os.path.join(name, "key")   # a directory called ~
            if "/" in n and form == 3:
                continue
            full = os.path.join(d, name)
            new = not os.path.exists(full)
            was = listing(d)
            if not new and rng.random() < 0.5:
                os.chmod(full, 0o600)
                was = listing(d)
            w = Watch([d])
            with w:
                src.to_key_file(name, pw)
            judge(mon, w, "saving a key file as %r" % name)
            mon.saw("saved_files")
            if n not in ("key", "key.pem"):
                mon.saw("odd_names")
            now = listing(d)
            rel = os.path.relpath(full, d)
            mon.check(rel in now, "saving a key file as %r made no file of this name, but %s", name, sorted(set(now) - set(was)))
            others = {k: v for k, v in now.items() if k != rel}
            mon.check(others == {k: v for k, v in was.items() if k != rel}, "saving a key file as %r changed something else: %s", name,
                      sorted(k for k in set(others) | set(was) if k != rel and others.get(k) != was.get(k)))
            # over the one that is there now
            src = rng.choice(K.pool(cls))
            w = Watch([d])
            with w:
                src.to_key_file(name, pw)
            judge(mon, w, "saving a key file as %r again" % name)
            again = listing(d)
            mon.check(sorted(again) == sorted(now) and all(again[k] == now[k] for k in now if k != rel), "saving a key file as %r again changed something else: %s", name,
                      sorted(k for k in set(again) | set(now) if k != rel and again.get(k) != now.get(k)))
            mon.check(again[rel][1] == now[rel][1], "saving a key file as %r again changed its mode from %o to %o", name, now[rel][1], again[rel][1])
            now = again
            # loading reads it and changes nothing
            w = Watch([d])
            with w:
                got = cls.from_key_file(name, pw)
                bad = T.attempt(cls.from_key_file, name, pw + "x")
                gone = T.attempt(cls.from_key_file, name + ".gone", pw)
                away = T.attempt(src.to_key_file, os.path.join("no", "such", n), pw)
                odd = [T.attempt(src.to_key_file, x, pw) for x in (None, b"bytes", 5)] + [T.attempt(src.to_key_file, name, x) for x in (None, b"bytes", 5, "\u20ac")]
                there = [Utils.file_exists(os.path.join(d, name)), Utils.file_exists("./" + os.path.relpath(full, d)), Utils.dir_exists(d), Utils.file_exists(full + ".gone")]
            judge(mon, w, "loading the key file %r" % name)
            mon.check(got.public_key == src.public_key and got.nickname == src.nickname, "the key file %r loads as another key", name)
            mon.check(all(map(T.raised, [bad, gone, away] + odd)), "a key file was loaded or saved with arguments that cannot be")
            mon.check(there == [True, True, True, False], "file and directory checks of %r answered %s", name, there)
            again = listing(d)
            mon.check(again == now, "loading the key file %r and refused calls changed something: %s", name, sorted(k for k in set(again) | set(now) if again.get(k) != now.get(k)))
            mon.saw("directories_compared", 2)
            mon.state(n, form, new)
            loaded.append(got)
    del kp
    mon.mark()


# ---------------------------------------------------------------- hostile bytes
class _Boom:
    def __init__(self, path):
        self.path = path

    def __reduce__(self):
        return (os.mkdir, (self.path,))


def gen_hostile(rng, size):
    return {"seed": rng.getrandbits(48)}


def run_hostile(case, mon):
    rng = random.Random(case["seed"])
    mark = "verif_mark_%d" % rng.getrandbits(60)
    with Scratch() as d:
        target = os.path.join(d, mark)
        texts = ["__import__('os').mkdir(%r)" % target, "[x for x in ().__class__.__base__.__subclasses__()] or %r" % mark, "(lambda: __import__('os').mkdir(%r))()" % target,
                 "!!python/object/apply:os.mkdir [%s]" % target, "$(mkdir %s)" % target, "`mkdir %s`" % target, "%%(x)s %s" % mark, "{0.__class__} %s" % mark, "; mkdir %s;" % target,
                 "<!ENTITY x SYSTEM 'file://%s'>" % target, "{'a': %r}" % mark, "'%s'" % mark, "[1, '%s']" % mark, "(b'%s',)" % mark, "0x%s" % mark.encode().hex()]
        raws = [pickle.dumps(_Boom(target), p) for p in range(6)] + [pickle.dumps([_Boom(target)]), base64.b64encode(pickle.dumps(_Boom(target))), pickle.dumps(_Boom(target)).hex().encode()]
        raws += [t.encode() for t in texts]
        raws += [b"cos\nmkdir\n(S'%s'\ntR." % target.encode()]
        payload = rng.choice(raws)
        text = rng.choice(texts)
        raw_or = lambda: rng.choice(raws)
        enc = X.R.rlp_encode
        stamp = b"2024-01-01 00:00:00"
        rl = [payload, enc([payload]), enc([raw_or(), raw_or()]), enc([b"MT-POI", stamp, raw_or(), raw_or(), [[raw_or(), raw_or()]]]), enc([b"MT-POI", raw_or(), b"k", b"r", []]),
              enc([raw_or(), stamp, b"k", b"r", []]), enc([b"FF", raw_or(), raw_or(), b"\1"]), enc([b"\x20", raw_or()]), enc([b""] * 16 + [raw_or()]), enc([raw_or(), b"\1", b""]),
              enc([[raw_or(), raw_or()], raw_or()]), DataReference(raw_or(), raw_or()).encode(), enc([b"MT-POI", stamp, b"k", b"r", raw_or()])]
        f = {"proof_type": "MT-POI", "timestamp": "2024-01-01 00:00:00", "target_key": "k", "root_hash": "ab", "proof": [["left", "0a"]]}
        js = [text, json.dumps(text), json.dumps([text]), json.dumps({"__class__": "os.mkdir", "py/object": "os.mkdir", "args": [target]})]
        js += [json.dumps(dict(f, **{k: rng.choice([text, [text], [[text, text]], {"py/reduce": [{"py/function": "os.mkdir"}, {"py/tuple": [target]}]}])})) for k in f]
        kf = {"nickname": text, "public_key": text, "private_key": rng.choice(raws).hex()}
        js += [json.dumps(kf), json.dumps(dict(kf, private_key=text))]
        en = {k: rng.choice(raws).hex() if rng.random() < 0.7 else text for k in ("enc_session_key", "nonce", "tag", "ciphertext", "signature")}
        a = K.pool(RsaKeyPair)[0]
        with open("file", "w") as fh:
            fh.write(rng.choice(js))
        with open("raw", "wb") as fh:
            fh.write(payload)
        before = listing(d)
        n = 0
        w = Watch([d], marker=mark)
        with w:
            for b in rl:
                for fn in (Node.decode, lambda x: Node.decode(x, False), DataReference.decode, Proof.decode_rlp, MPT.decode, SparseEMPT.decode_rlp, RootEMPT.decode_rlp,
                           NibblePath.decode, NibblePath.decode_with_type, lambda x: MPT({X.R.keccak256(x): x}, X.R.keccak256(x)).get(b"k"),
                           lambda x: EMPT({X.R.keccak256(x): x}, {b"k": x}, root=X.R.keccak256(x)).get(b"k")):
                    r = T.attempt(fn, b)
                    for g in (str, repr, hash):
                        T.attempt(g, r)
                    n += 1
                p = T.attempt(Proof, b"k", b"r" * 32, (b, b), b"MPT-POI")
                for o in (MPT({}), EMPT({}, {}), MerkleTree()):
                    T.attempt(o.update if not isinstance(o, MerkleTree) else lambda k, v: o.put(v), b"k", b)
                    for g in ("verify_proof_of_inclusion", "verify_proof_of_exclusion"):
                        T.attempt(getattr(o, g), p)
                        n += 1
            for s in js:
                for fn in (Proof.decode_json, lambda x: Proof.decode_json(x.encode()), lambda x: RsaKeyPair.from_key_string(x, "pw"), lambda x: a.decrypt(x.encode(), a.public_key),
                           Utils.from_timstamp_string):
                    r = T.attempt(fn, s)
                    for g in (str, repr, hash):
                        T.attempt(g, r)
                    n += 1
            for s in texts:
                for fn in (Utils.file_exists, Utils.dir_exists, Utils.from_timstamp_string, Utils.generate_ecc_key, lambda x: Utils.hash_data(b"x", True, x), lambda x: MerkleTree(True, x),
                           lambda x: RsaKeyPair.from_key_file(x, x), lambda x: RsaKeyPair(x, _generate_keys=False), lambda x: Utils.encrypt(b"x", x), lambda x: Utils.rsa_key_valid(b"x", x),
                           lambda x: Utils.rsa_key_valid(x.encode())):
                    r = T.attempt(fn, s)
                    T.attempt(str, r)
                    n += 1
            T.attempt(a.decrypt, json.dumps(en).encode(), a.public_key)
            T.attempt(a.decrypt, payload, a.public_key)
            T.attempt(RsaKeyPair.from_key_file, "file", "pw")
            T.attempt(RsaKeyPair.from_key_file, "raw", "pw")
            T.attempt(Utils.decrypt, payload, "pw")
            T.attempt(a.signature_valid, payload, payload, payload)
        judge(mon, w, "hostile input decoded")
        after = listing(d)
        mon.check(after == before, "hostile input made or changed files: %s", sorted(set(after) ^ set(before)))
        mon.saw("hostile_decodes", n)
        mon.saw("directories_compared")
        mon.state(payload[:20], text[:20])
    mon.mark()


# ---------------------------------------------------------------- secrets
def of_number(x):
    """Some digits and bytes from the middle of a number."""
    b = x.to_bytes((x.bit_length() + 7) // 8, "big")
    m = len(b) // 2
    return {str(x)[20:50], b[m - 8:m + 8].hex(), b[m - 8:m + 8].decode("latin-1"), repr(b[m - 8:m + 8])[2:-1]}


def of_key(text, pw):
    k = RSA.import_key(bytes.fromhex(json.loads(text)["private_key"]), passphrase=pw)
    out = set()
    for x in (k.d, k.p, k.q, k.u):
        out |= of_number(int(x))
    for pk in (1, 8):
        der = k.export_key("DER", pkcs=pk)
        b = base64.b64encode(der).decode()
        out |= {b[i:i + 40] for i in range(len(b) // 2, len(b) - 44, 20)}
        pem = k.export_key("PEM", pkcs=pk).decode().split("\n")
        out |= {x for x in pem[len(pem) // 2:-2] if len(x) == 64}
    return {x for x in out if len(x) >= 12}


def of_text(s):
    b = s.encode() if isinstance(s, str) else s
    e = base64.b64encode(b).decode().rstrip("=")
    return {b.decode("latin-1"), b.hex(), e[:len(e) // 4 * 4 - 4], repr(b)[2:-1], b[::-1].decode("latin-1")} | ({s, repr(s)[1:-1], json.dumps(s)[1:-1]} if isinstance(s, str) else set())


def texts_of(x, depth=0, seen=None):
    """All text and bytes to be seen in a result or an exception."""
    seen = seen if seen is not None else set()
    if id(x) in seen or depth > 6:
        return
    if isinstance(x, (bytes, bytearray)):
        yield bytes(x).decode("latin-1")
        # hexadecimal parts too
        t = bytes(x)
        try:
            yield from texts_of(json.loads(t), depth + 1, seen)
        except (ValueError, UnicodeDecodeError, RecursionError):
            pass
        return
    if isinstance(x, str):
        yield x
        try:
            if len(x) > 12:
                yield bytes.fromhex(x).decode("latin-1")
        except ValueError:
            pass
        return
    if isinstance(x, BaseException):
        seen.add(id(x))
        yield str(x)
        if not isinstance(x, UnicodeError):   # these hold the whole text, and print a character
            yield repr(x)
            for a in x.args:
                yield from texts_of(a, depth + 1, seen)
        for y in (x.__cause__, x.__context__, *getattr(x, "__notes__", ())):
            if y is not None:
                yield from texts_of(y, depth + 1, seen)
        return
    if isinstance(x, dict):
        for k, v in x.items():
            yield from texts_of(k, depth + 1, seen)
            yield from texts_of(v, depth + 1, seen)
        return
    if isinstance(x, (list, tuple, set, frozenset)):
        for y in x:
            yield from texts_of(y, depth + 1, seen)
        return
    yield "%s %r" % (x, x)


_forms, _keys = {}, {}


def gen_secrets(rng, size):
    return {"seed": rng.getrandbits(48), "cls": rng.randrange(3), "odd": rng.random() < 0.3}


def word(rng, n):
    return "".join(rng.choice("abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789") for _ in range(n))


def run_secrets(case, mon):
    rng = random.Random(case["seed"])
    cls = CLASSES[case["cls"]]
    a, b = rng.sample(K.pool(cls), 2)
    full, third = [x for x in K.pool(RsaKeyPair, 4) if x is not a and x is not b][:2]
    pw, pw2, other = word(rng, 17), word(rng, 19), word(rng, 18)
    if case["odd"]:
        pw, pw2 = pw + "\xe9\"\\ ", pw2 + "\xfc'\n"
    plain = rng.randbytes(rng.choice((17, 40, 100)))
    if rng.random() < 0.4:
        plain = word(rng, 24).encode()
    probe = "the probe's own passphrase"
    saved = [_forms.setdefault(x.public_key, None) or _forms.update({x.public_key: x.to_key_string(probe)}) or _forms[x.public_key] for x in (a, b, full)]
    needles = {}
    for name, xs in (("the private key", set().union(*(_keys.get(s) or _keys.setdefault(s, of_key(s, probe)) for s in saved))), ("the passphrase", of_text(pw)), ("the password", of_text(pw2)),
                     ("the plaintext", of_text(plain)), ("the passphrase given wrongly", of_text(other))):
        needles[name] = xs
        mon.saw("secrets", len(xs))
    found = []

    def scan(what, fn, *args, but=()):
        try:
            x = fn(*args)
        except Exception as e:
            x = e
        for t in texts_of(x):
            mon.saw("texts_scanned")
            for name, xs in needles.items():
                if name in but:
                    continue
                for n in xs:
                    if n in t or (n.isalnum() and n.lower() == n and n in t.lower()):
                        found.append("%s shows %s" % (what, name))
                        break
        return None if isinstance(x, Exception) else x

    with Scratch() as d:
        w = Watch([d])
        with w:
            for x in (a, b, full):
                for f in (str, repr, ascii, format, "{!r:>5}".format, lambda o: "%s %r" % (o, o), lambda o: str([o]), lambda o: str({1: o}), hash, lambda o: o.public_key,
                          lambda o: o.public_key_string, lambda o: o.nickname, lambda o: o == a):
                    scan("printing a key pair", f, x)
            text = scan("the saved form", a.to_key_string, pw)
            scan("the key file", a.to_key_file, "file", pw)
            with open("file", "rb") as f:
                content = f.read()
            scan("the key file", lambda: content)
            scan("a loaded key pair", lambda: repr(cls.from_key_string(text, pw)))
            scan("loading with another passphrase", cls.from_key_string, text, other)
            scan("loading with another passphrase", cls.from_key_file, "file", other)
            scan("loading with a bad passphrase", cls.from_key_string, text, pw + "\u20ac")
            scan("saving with a bad passphrase", a.to_key_string, pw + "\u20ac")
            scan("saving with a bad passphrase", a.to_key_file, "file2", pw + "\u20ac")
            scan("saving with a bad passphrase", a.to_key_string, pw.encode())
            scan("saving with a bad passphrase", a.to_key_file, "file2", [pw])
            scan("loading with a bad passphrase", cls.from_key_string, text, pw.encode())
            scan("loading with a bad passphrase", cls.from_key_file, "file", {pw})
            scan("saving to a bad place", a.to_key_file, os.path.join(d, "no", "where"), pw)
            scan("saving to a bad place", a.to_key_file, 5, pw)
            scan("loading from nowhere", cls.from_key_file, "nowhere", pw)
            for i in range(3):
                j = rng.randrange(len(text))
                bad = rng.choice((text[:j], text[:j] + "!" + text[j + 1:], "{}", text + text, text.replace("private_key", "other"), text.upper()))
                scan("loading a damaged saved form", cls.from_key_string, bad, pw)
            open_form = json.dumps(dict(json.loads(text), nickname="n"))
            scan("loading a saved form", cls.from_key_string, open_form, pw)
            for x in (a, full):
                sig = scan("a signature", x.sign, plain)
                for args in ((plain, sig or b"x", x.public_key), (plain + b"!", sig or b"x"), (plain, b""), (plain, sig, plain), (plain, "text"), (plain.decode("latin-1"), sig), (plain, plain, b"nokey")):
                    scan("checking a signature", x.signature_valid, *args)
                scan("signing", x.sign, plain.decode("latin-1"))
                scan("encrypting", x.encrypt, plain.decode("latin-1"), x.public_key)
                scan("encrypting", x.encrypt, plain, "nokey")
                scan("encrypting", x.encrypt, plain, b"nokey")
                scan("setting the public key", setattr, x, "public_key", b"new")
                scan("deleting the public key", delattr, x, "public_key")
            env = scan("an encrypted message", full.encrypt, plain, full.public_key)
            if rng.random() < 0.5:
                scan("encrypting to another class", full.encrypt, plain, a.public_key)
            scan("the decrypted message", full.decrypt, env, full.public_key, but=("the plaintext",))
            for i in range(4):
                part = json.loads(env)
                k = rng.choice(sorted(part))
                v = bytearray.fromhex(part[k])
                v[rng.randrange(len(v))] ^= 1 << rng.randrange(8)
                part[k] = rng.choice((v.hex(), "", v.hex()[:-1], "zz", None, 5))
                scan("decrypting an altered message", full.decrypt, json.dumps(part).encode(), full.public_key)
            scan("decrypting from another sender", full.decrypt, env, b.public_key)
            scan("decrypting from nobody", full.decrypt, env, b"nobody")
            scan("decrypting at another receiver", third.decrypt, env, full.public_key)
            scan("decrypting a part", full.decrypt, env[:-9], full.public_key)
            scan("decrypting text", full.decrypt, env.decode(), full.public_key)
            for x in (a, b):
                scan("decrypting", x.decrypt, env, full.public_key)
            ct = scan("a password encryption", Utils.encrypt, plain, pw2)
            scan("password decryption", Utils.decrypt, ct, pw2, but=("the plaintext",))
            scan("decrypting with another password", Utils.decrypt, ct, other)
            i = rng.randrange(len(ct))
            for bad in (ct[:i], ct[:i] + bytes([ct[i] ^ 4]) + ct[i + 1:], ct + b"x", ct[:31], b""):
                scan("decrypting altered data", Utils.decrypt, bad, pw2)
            scan("encrypting with a bad password", Utils.encrypt, plain, pw2.encode())
            scan("encrypting with a bad password", Utils.encrypt, plain, pw2 + "\ud800")
            scan("encrypting bad data", Utils.encrypt, plain.decode("latin-1"), pw2)
            scan("decrypting bad data", Utils.decrypt, plain.decode("latin-1"), pw2)
            scan("decrypting with a bad password", Utils.decrypt, ct, [pw2])
            der = RSA.import_key(bytes.fromhex(json.loads(saved[2])["private_key"]), passphrase=probe)
            for fmt in ("PEM", "DER"):
                scan("checking a private key", Utils.rsa_key_valid, der.export_key(fmt), rng.choice(("private", "public")))
                scan("checking a private key", Utils.rsa_key_valid, der.export_key(fmt)[:-7], rng.choice(("private", "public")))
                scan("checking a private key", Utils.rsa_key_valid, der.export_key(fmt), "public", True)
                scan("encrypting to a private key", lambda: full.encrypt(plain, der.export_key(fmt)))
                scan("verifying with a private key", lambda: full.signature_valid(plain, b"x" * 128, der.export_key(fmt)))
                scan("encrypting to a spoilt private key", lambda: full.encrypt(plain, der.export_key(fmt)[:-7]))
        mon.check(not found, "%s", "; ".join(sorted(set(found))[:4]))
        judge(mon, w, "secrets used")
        mon.state(case["cls"], len(plain), sorted(listing(d)))
    mon.mark()


# ---------------------------------------------------------------- the other checks' workloads
OTHERS = ["c%02d" % i for i in (*range(1, 21), 22, 23, 24, 25, 26, 28, 30, 32, 33, 5, 28, 30, 30)]
_others = {}


def gen_others(rng, size):
    return {"seed": rng.getrandbits(48), "mod": rng.choice(OTHERS), "which": rng.randrange(1 << 20), "i": rng.randrange(1 << 20)}


def run_others(case, mon):
    """What another check does (faults, hostile proofs, refusals, ...), under watch; how it ends is that check's matter."""
    if case["mod"] not in _others:
        _others[case["mod"]] = importlib.import_module("props." + case["mod"])
    m = _others[case["mod"]]
    scs = [s for s in m.SCENARIOS if not s.enum]
    if not scs:
        mon.mark()
        return
    sc = scs[case["which"] % len(scs)]
    c = core.make_case(sc, case["seed"], m.ID, case["i"])
    quiet = core.Monitor()
    w = Watch()
    with w:
        try:
            sc.run(c, quiet)
        except core.CaseTimeout:
            raise
        except (Exception, core.Violation):
            mon.saw("others_stopped")
    judge(mon, w, "the calls of scenario %s of %s" % (sc.name, m.ID))
    mon.saw("other_workloads")
    mon.state(case["mod"], sc.name, w.seen)
    mon.mark()


def large_tree(rng, n):
    t = MerkleTree(secure=rng.random() < 0.5, hash_type=rng.choice(M.HASHES))
    t.put_list([b"%d" % i for i in range(n)])
    t.make_tree()
    for _ in range(40):
        t.verify_proof_of_inclusion(t.get_proof_of_inclusion(b"%d" % rng.randrange(n)))
    str(t), hash(t), t.get_merkle_root(), t.get(n - 1)
    for _ in range(n // 8):
        T.attempt(t.get_proof_of_inclusion, b"no")
    t.reset_tree()


def large_trie(rng, n):
    t, m = EMPT({}, {}, secure=rng.random() < 0.5), MPT({})
    ks = [b"key%d" % i for i in range(n // 3)]
    for k in ks:
        t[k] = k * 4
        m.update(k, k * 4)
    for k in rng.sample(ks, 40):
        for x in (t, m):
            T.accepted(x.verify_proof_of_inclusion, x.get_proof_of_inclusion(k))
            T.accepted(x.verify_proof_of_exclusion, x.get_proof_of_exclusion(k + b"!"))
    t.build_trie()
    t.get_sparse_trie().encode_rlp()
    MPT.decode(m.encode())
    for k in ks:
        T.attempt(m.get, k + b"?")
        del t[k]


def large_values(rng, n):
    for secure in (False, True):
        t, m = EMPT({}, {}, secure=secure), MPT({}, secure=secure)
        for size in (n, n * 40, n * 400, 1 << 16, 1 << 20, (1 << 21) + 1):
            v = bytes([rng.randrange(1, 256)]) * size
            t[b"k"] = v
            m.update(b"k", v)
            t[b"k"], m.get(b"k")
            for x in (t, m):
                x.verify_proof_of_inclusion(x.get_proof_of_inclusion(b"k"))
                x.verify_proof_of_exclusion(x.get_proof_of_exclusion(b"kk"))
            DataReference.decode(DataReference(b"k", v).encode())
            MPT.decode(m.encode())
            s = MerkleTree(secure=secure)
            s.put_list([v, b"x", v])
            s.make_tree()
            s.verify_proof_of_inclusion(s.get_proof_of_inclusion(v))


def large_keys(rng, n):
    t, m = EMPT({}, {}, secure=rng.random() < 0.3), MPT({})
    for size in (n, n * 2, n * 8):
        k = rng.randbytes(size)
        for x in (t, m):
            x.update(k, b"v" * 30)
            x.update(k[:-1], b"w" * 30)
            x.contains(k)
            x.verify_proof_of_inclusion(x.get_proof_of_inclusion(k))
            x.delete(k[:-1])
        p = NibblePath(k)
        str(p), repr(p), NibblePath.decode(p.encode(True)) == p


def deep_keys(rng, n):
    m = MPT({})
    for i in range(1, 120):
        m.update(b"\x11" * i, b"v" * 34)
    for i in (1, 60, 119):
        m.verify_proof_of_inclusion(m.get_proof_of_inclusion(b"\x11" * i))
    m.verify_proof_of_exclusion(m.get_proof_of_exclusion(b"\x11" * 119 + b"\x12"))
    for i in range(119, 0, -1):
        m.delete(b"\x11" * i)


def large_messages(rng, n):
    a = K.pool(RsaKeyPair)[0]
    for size in (n, n * 60, 1 << 17, 1 << 20):
        d = rng.randbytes(size)
        a.signature_valid(d, a.sign(d))
        a.decrypt(a.encrypt(d, a.public_key), a.public_key)
        Utils.decrypt(Utils.encrypt(d, "pw" * (size % 99 + 1)), "pw" * (size % 99 + 1))
        Utils.hash_data(d), Utils.sha512(d)
    k = RsaKeyPair("n" * n, _generate_keys=False)
    k.generate_keypair(2048)
    k.from_key_string(k.to_key_string("p" * n), "p" * n)


def many_calls(rng, n):
    m = MPT({})
    for i in range(n * 2):
        m.update(b"k%d" % (i % 7), b"v%d" % i)
        T.attempt(m.get, b"absent")
    for i in range(n * 2):
        Utils.get_id()
        T.attempt(m.verify_proof_of_inclusion, Proof(b"k", b"r", (b"n",), b"MPT-POI"))
        DataReference(b"k", b"%d" % i)


LARGE = (large_tree, large_trie, large_values, large_keys, deep_keys, large_messages, many_calls)


def gen_large(i):
    return {"what": i % len(LARGE), "n": (1100, 2100, 4200)[i // len(LARGE) % 3], "seed": i}


def run_large(case, mon):
    """Much of everything under watch."""
    rng = random.Random("large %d" % case["seed"])
    fn = LARGE[case["what"]]
    w = Watch()
    with w:
        fn(rng, case["n"])
    judge(mon, w, "%s of %d" % (fn.__name__.replace("_", " "), case["n"]))
    mon.saw("large_workloads")
    mon.state(fn.__name__, case["n"])
    mon.mark()


SCENARIOS = [
    scenario("large", gen_large, run_large, 2 * len(LARGE), 3 * len(LARGE), enum=True),
    scenario("quiet", gen_quiet, run_quiet, quick=240, thorough=6000),
    scenario("others", gen_others, run_others, quick=320, thorough=12000),
    scenario("files", gen_files, run_files, quick=80, thorough=3000),
    scenario("hostile", gen_hostile, run_hostile, quick=240, thorough=6000),
    scenario("secrets", gen_secrets, run_secrets, quick=140, thorough=4000),
]
