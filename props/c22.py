"""C22: password encryption round-trips and rejects everything else."""
import hashlib
import random

from vlib import gen, mined, tries as T, words
from vlib.core import scenario
from props.c19 import alter
from pymt.utils.utils import Utils

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated data travels intact and altered; the only answers allowed are the original or an exception"
LEVEL_NOTE = "in the executed runs intact ciphertexts opened to the original with their password only, and everything else raised"
RULE = ("a case encrypts data of many lengths under passwords of any text and decrypts it intact, under near-miss passwords, with every "
        "byte position of short ciphertexts altered, truncated, extended and spliced; non-trivial always")
REQUIRED = ["words_tried", "opened", "wrong_password", "altered_every_byte", "truncated", "extended", "spliced", "foreign", "fresh", "plaintext_not_visible",
            "empty_data", "long_data", "empty_password", "unicode_password", "related_data"]
ASSUMPTIONS = ["AES-EAX and SHA-256 are secure", "passwords are text that UTF-8 can represent"]

PASSWORDS = ["", " ", "a", "A", "password", "Password", "password ", " password", "passwor", "пароль", "\U0001f511", "e\u0301", "é", "\x00", "a\x00", "a\x00b",
             "0" * 16, "0" * 32, "x" * 64, "x" * 65, "x" * 300, "None", "pass\nword", "password\u00a0"]


def gen_case(rng, size):
    data = rng.choice((b"", b"\x00", gen.value(rng, True, True), gen.value(rng), gen.shaped(rng), gen.shaped(rng), rng.randbytes(rng.choice((15, 16, 17, 31, 32, 33, 48, 64, 255, 4096, 100000)))))
    pw = rng.choice(PASSWORDS) if rng.random() < 0.6 else "".join(chr(rng.choice((rng.randrange(32, 127), rng.randrange(160, 0x2000)))) for _ in range(rng.randrange(1, 30)))
    return {"data": data, "pw": pw, "seed": rng.getrandbits(32)}


def near(rng, pw):
    out = [pw + " ", pw + "\x00", pw[:-1], pw[1:], pw.swapcase(), pw + pw, pw[::-1], " " + pw, pw.strip(), pw.upper(), pw.encode().hex(), pw[: len(pw) // 2], rng.choice(PASSWORDS)]
    if pw:
        i = rng.randrange(len(pw))
        out.append(pw[:i] + chr(ord(pw[i]) ^ 1) + pw[i + 1:])
        i = len(pw) - 1
        out.append(pw[:i] + chr(ord(pw[i]) ^ 2))
        out.append("".join(chr(ord(c) + 256) for c in pw))
    return [x for x in out if x != pw]


def never(mon, blob, pw, what):
    g = T.attempt(Utils.decrypt, blob, pw)
    mon.check(T.raised(g), "%s: decryption gave %s instead of raising", what, T.hx(g))


def run_case(case, mon):
    rng = random.Random(case["seed"])
    data, pw = case["data"], case["pw"]
    mon.mark()
    blob = Utils.encrypt(data, pw)
    mon.check(isinstance(blob, bytes), "the ciphertext is a %s", type(blob).__name__)
    for _ in range(2):
        g = Utils.decrypt(blob, pw)
        mon.check(g == data and isinstance(g, bytes), "decryption gave %s instead of the original", T.hx(g))
        mon.saw("opened")
    if not data:
        mon.saw("empty_data")
    if len(data) > 4000:
        mon.saw("long_data")
    if not pw:
        mon.saw("empty_password")
    if any(ord(c) > 127 for c in pw):
        mon.saw("unicode_password")
    blob2 = Utils.encrypt(data, pw)
    mon.check(blob2 != blob, "encrypting twice gives the same ciphertext")
    mon.check(Utils.decrypt(blob2, pw) == data and Utils.decrypt(blob, pw) == data, "one of two ciphertexts does not open")
    mon.saw("fresh")
    if len(data) >= 8:
        mon.check(data not in blob and data.hex().encode() not in blob and data[::-1] not in blob and data[:8] not in blob and data[-8:] not in blob,
                  "the ciphertext contains the plaintext")
        # the same bytes at the same place in two ciphertexts would be no encryption
        n = min(len(blob), len(blob2))
        run = best = 0
        for a, b in zip(blob[:n], blob2[:n]):
            run = run + 1 if a == b else 0
            best = max(best, run)
        mon.check(best < 8 if len(data) < 5000 else best < 10, "two ciphertexts of the same data share %d bytes in place", best)
        mon.saw("plaintext_not_visible")
    for x in near(rng, pw):
        never(mon, blob, x, "the password %r instead of %r" % (x, pw))
        mon.saw("wrong_password")
    if len(blob) <= 70:
        for i in range(len(blob)):
            x = bytearray(blob)
            x[i] ^= 1 << rng.randrange(8)
            never(mon, bytes(x), pw, "byte %d of %d altered" % (i, len(blob)))
            mon.saw("altered_every_byte")
        for n in range(len(blob)):
            never(mon, blob[:n], pw, "cut to %d of %d bytes" % (n, len(blob)))
            if n:
                never(mon, blob[n:], pw, "without the first %d bytes" % n)
            mon.saw("truncated")
    else:
        for _ in range(25):
            never(mon, alter(rng, blob), pw, "altered")
        for i in (0, 15, 16, 31, 32, len(blob) - 1, len(blob) // 2):
            x = bytearray(blob)
            x[i] ^= 1 << rng.randrange(8)
            never(mon, bytes(x), pw, "byte %d of %d altered" % (i, len(blob)))
        for n in (0, 1, 15, 16, 17, 31, 32, 33, len(blob) - 1, len(blob) - 16):
            never(mon, blob[:n], pw, "cut to %d of %d bytes" % (n, len(blob)))
            mon.saw("truncated")
    for x in (b"\x00", b"\n", rng.randbytes(1), rng.randbytes(16), blob):
        never(mon, blob + x, pw, "extended by %d bytes" % len(x))
        never(mon, x + blob, pw, "extended in front by %d bytes" % len(x))
        mon.saw("extended")
    # pieces of two ciphertexts of the same and of other data under the same password
    for other in (blob2, Utils.encrypt(gen.value(rng), pw)):
        for cut in {1, 8, 16, 24, 32, len(blob) // 2}:
            for x in (blob[:cut] + other[cut:], other[:cut] + blob[cut:], blob[:16] + other[16:32] + blob[32:], other[:16] + blob[16:]):
                if x not in (blob, other):
                    never(mon, x, pw, "spliced from two ciphertexts")
                    mon.saw("spliced")
    for x in (data, rng.randbytes(len(blob)), b"\x00" * len(blob), blob.hex().encode(), blob[::-1], Utils.encrypt(data, pw + "x"), Utils.encrypt(blob, pw + "x")):
        never(mon, x, pw, "a foreign ciphertext")
        mon.saw("foreign")
    # data made of ciphertexts and of the password
    if len(blob) < 20000:
        key = pw.encode()
        rel = [blob, blob, blob + b"\0", blob[1:], Utils.encrypt(blob2, pw), Utils.encrypt(data, pw + "x"), key + b"\0" + data, key, key * 2, data + key, key[::-1], key.hex().encode(),
               hashlib.sha256(key).digest(), hashlib.sha256(key).hexdigest().encode(), hashlib.sha256(data).digest(), blob.hex().encode(), b"\0" * 32 + data, data[:16] * 3]
        for d in rng.sample(rel, 4) + rel[:1]:
            b = Utils.encrypt(d, pw)
            g = T.attempt(Utils.decrypt, b, pw)
            mon.check(g == d, "data related to ciphertexts and passwords (%d bytes) decrypts to %s", len(d), T.hx(g))
            never(mon, b, pw + "x", "another password for such data")
            never(mon, alter(rng, b), pw, "such data altered")
            mon.saw("related_data")
        for p2 in (blob.hex(), hashlib.sha256(key).hexdigest(), data.hex(), data.decode("latin-1")):
            b = Utils.encrypt(data, p2)
            mon.check(Utils.decrypt(b, p2) == data, "data does not open with a password related to it")
            if p2 != pw:
                never(mon, b, pw, "the password it was derived from")
                never(mon, blob, p2, "a password derived from it")
    for bad in ("text", None, 5):
        mon.check(T.raised(T.attempt(Utils.encrypt, bad, pw)) and T.raised(T.attempt(Utils.decrypt, bad, pw)), "%r was processed", bad)
    for bad in (b"bytes", None, 5):
        mon.check(T.raised(T.attempt(Utils.encrypt, data, bad)) and T.raised(T.attempt(Utils.decrypt, blob, bad)), "the password %r was used", bad)
    mon.check(Utils.decrypt(blob, pw) == data, "the ciphertext does not open any more")
    mon.state(data, pw)


def gen_length(i):
    return {"n": mined.BIG_SIZES[i % len(mined.BIG_SIZES)], "i": i}


def run_length(case, mon):
    """Data and passwords of one length."""
    rng = random.Random(case["i"])
    n = case["n"]
    for data, pw in ((rng.randbytes(n), "password"), (b"data", "".join(chr(rng.randrange(33, 1000)) for _ in range(min(n, 3000)))), (b"\x00" * n, "p")):
        mon.mark()
        blob = Utils.encrypt(data, pw)
        mon.check(Utils.decrypt(blob, pw) == data, "%d bytes under a password of %d letters do not open to the original", len(data), len(pw))
        mon.saw("opened")
        for x in (pw[:-1], pw + "x", pw[:-1] + "\u0100", "\u0100" + pw[1:]):
            if x != pw:
                never(mon, blob, x, "another password of %d letters" % len(x))
                mon.saw("wrong_password")
        for i in {0, 16, 32, len(blob) // 2, len(blob) - 1, rng.randrange(len(blob))}:
            if i < len(blob):
                b = bytearray(blob)
                b[i] ^= 1 << rng.randrange(8)
                never(mon, bytes(b), pw, "byte %d of %d altered" % (i, len(blob)))
        never(mon, blob[:-1], pw, "the last of %d bytes cut" % len(blob))
        never(mon, blob + b"\x00", pw, "a byte behind %d bytes" % len(blob))
        mon.saw("truncated")
    mon.state(n)


def run_word(case, mon):
    w, i = case["w"], case["i"]
    p = w.decode("latin-1")
    mon.mark()
    for d, pw in ((w, "password"), (b"data", p), (w, p), (w + b"data", p + "x")):
        b = Utils.encrypt(d, pw)
        g = T.attempt(Utils.decrypt, b, pw)
        mon.check(g == d, "%r under %r decrypts to %s", d, pw, T.hx(g))
        for x in (pw + " ", pw[:-1], pw.swapcase(), "", "password" + p, w.hex()):
            if x != pw:
                never(mon, b, x, "%r instead of %r" % (x, pw))
        never(mon, alter(random.Random(i), b), pw, "altered")
    mon.state(w)


SCENARIOS = [
    words.each(run_word, lambda w, i: [{"w": w, "i": i}]),
    scenario("password", gen_case, run_case, 1500, 40000),
    scenario("lengths", gen_length, run_length, len(mined.BIG_SIZES), enum=True),
]
