"""C19: signatures verify for the signed data and signer only."""
import random

from Crypto.Hash import SHA256
from Crypto.PublicKey import RSA

from vlib import gen, mined, tries as T, keys as K, words
from vlib.core import scenario
from pymt.keypairs import RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: signatures over generated data are shown, intact and altered, to every verifier; only the exact triple may pass"
LEVEL_NOTE = "in the executed runs a signature was valid exactly for its data, its bytes and its signer's public key"
RULE = ("a case signs byte strings of many lengths with general and authentication key pairs (1024 to 2048 bit) and verifies them "
        "intact and with the data, signature or public key altered; non-trivial always")
REQUIRED = ["words_tried", "valid_own", "valid_given_key", "wrong_data", "wrong_signature", "wrong_key", "malformed_signature", "malformed_key", "auth_refuses_encryption",
            "enc_refuses_signing", "long_data", "empty_data", "other_key_size", "loaded_signer", "signatures_with_zero_ends", "close_keys", "related_data"]
ASSUMPTIONS = ["RSA PKCS#1 v1.5 with SHA-256 is unforgeable on the generated inputs"]


def gen_case(rng, size):
    data = rng.choice((b"", b"\x00", gen.value(rng, True, True), gen.value(rng), gen.shaped(rng), gen.shaped(rng), rng.randbytes(rng.choice((63, 64, 65, 100, 4096, 70000)))))
    if rng.random() < 0.25:
        data = sized(rng)
    return {"data": data, "seed": rng.getrandbits(32), "signer": rng.randrange(4), "other": rng.randrange(4)}


def sized(rng):
    """Data as long as keys, signatures and digests are, with ends that get lost easily."""
    n = rng.choice((16, 20, 32, 64, 128, 128, 255, 256, 256, 257, 384, 512))
    b = bytearray(rng.choice((rng.randbytes(n), b"x" * n, b"\0" * n, bytes(rng.choice(b"0123456789abcdef") for _ in range(n)))))
    for i in rng.choice(((0,), (-1,), (0, -1), (0, 1), (-1, -2), ())):
        b[i] = rng.choice(b"\0\n \x80\xff\r\t=\x01")
    return bytes(b)


def alter(rng, b):
    """Different bytes of any kind."""
    r = rng.randrange(9)
    x = bytearray(b)
    if r == 0 or not b:
        return bytes(x) + rng.choice((b"\x00", b" ", b"\n", b"x"))
    if r == 1:
        return bytes(x[:-1])
    if r == 2:
        return bytes(x[1:])
    if r == 3:
        return b"\x00" + bytes(x)
    if r == 4:
        x[-1] ^= 1
    elif r == 5:
        x[0] ^= 0x80
    elif r == 6:
        x[len(x) // 2] ^= 0x10
    elif r == 7:
        x.insert(rng.randrange(len(x) + 1), rng.randrange(256))
    else:
        x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
    return bytes(x)


def run_case(case, mon):
    rng = random.Random(case["seed"])
    data = case["data"]
    signers = K.pool(RsaKeyPair)[:2] + K.pool(RsaAuthKeyPair)[:2]
    s = signers[case["signer"]]
    o = signers[case["other"]]
    if case["other"] == case["signer"]:
        o = signers[(case["other"] + 1) % 4]
    mon.mark()
    if len(data) > 4000:
        mon.saw("long_data")
    if not data:
        mon.saw("empty_data")
    pub = s.public_key
    sig = s.sign(data)
    mon.check(isinstance(sig, bytes), "the signature is a %s", type(sig).__name__)
    sig2 = s.sign(data)
    for g in (sig, sig2):
        mon.check(s.signature_valid(data, g) is True, "a signature is not valid for its own key pair")
        mon.saw("valid_own")
        mon.check(s.signature_valid(data, g, pub) is True and s.signature_valid(data, g, public_key=pub) is True, "a signature is not valid with the key given")
        mon.check(o.signature_valid(data, g, pub) is True, "a signature is not valid for another key pair given the signer's key")
        mon.saw("valid_given_key")
    # wrong key
    mon.check(o.signature_valid(data, sig) is False, "a signature is valid for another key pair")
    mon.check(s.signature_valid(data, sig, o.public_key) is False, "a signature is valid for another public key, shown to the signer")
    mon.check(o.signature_valid(data, sig, o.public_key) is False, "a signature is valid for another public key")
    third = K.big()
    mon.check(third.signature_valid(data, sig) is False and s.signature_valid(data, sig, third.public_key) is False, "a signature is valid for a key of another size")
    if rng.random() < 0.1:
        g = third.sign(data)
        mon.check(third.signature_valid(data, g) is True and s.signature_valid(data, g, third.public_key) is True and s.signature_valid(data, g) is False,
                  "signatures of a longer key are judged wrongly")
    mon.saw("other_key_size")
    mon.saw("wrong_key", 4)
    for key in (alter(rng, pub[:-30]) + b"garbage", b"", b"\x00", b" ", pub[: len(pub) // 2], pub[len(pub) // 2:], b"None", sig):
        for v, where in ((s, "the signer"), (o, "another key pair")):
            bad = T.attempt(v.signature_valid, data, v.sign(data), key)
            mon.check(T.raised(bad) or bad is False, "a signature is valid for a malformed public key (%d bytes) at %s", len(key), where)
            mon.saw("malformed_key")
    # keys that differ from the signer's in one number, by little
    n, e = (lambda k: (k.n, k.e))(RSA.import_key(pub))
    for n2, e2 in rng.sample([(n + 2, e), (n - 2, e), (n ^ 1 << rng.randrange(1, 1000), e), (n ^ 1 << rng.randrange(1, 60), e), (n, 3), (n, 17), (n, 65539), (n, e + 2)], 3):
        r = T.attempt(lambda: RSA.construct((n2, e2), consistency_check=False).export_key())
        if T.raised(r):
            continue
        for v in (s, o):
            bad = T.attempt(v.signature_valid, data, sig, r)
            mon.check(T.raised(bad) or bad is False, "a signature is valid for a public key that is close to the signer's")
        mon.saw("close_keys")
    # wrong data
    for _ in range(6):
        d = alter(rng, data)
        mon.check(s.signature_valid(d, sig) is False, "a signature is valid for other data (%d and %d bytes)", len(data), len(d))
        mon.check(o.signature_valid(d, sig, pub) is False, "a signature is valid for other data at another key pair")
        mon.saw("wrong_data")
    # wrong signature
    for _ in range(6):
        g = alter(rng, sig)
        mon.check(s.signature_valid(data, g) is False, "an altered signature (%d bytes) is valid", len(g))
        mon.saw("wrong_signature")
    for g in (b"", b"\x00", b"\xff" * len(sig), b"\x00" * len(sig), sig + sig, sig[: len(sig) // 2], sig[::-1], data, pub, o.sign(data), s.sign(data + b"!"), sig.hex().encode(), rng.randbytes(len(sig))):
        r = T.attempt(s.signature_valid, data, g)
        mon.check(not T.raised(r), "a malformed signature raised %r", r)
        mon.check(r is False, "a malformed signature is valid")
        mon.saw("malformed_signature")
    # signatures over signatures, keys and digests, and what is made of them
    for d in rng.sample([sig, pub, sig.hex().encode(), SHA256.new(data).digest(), SHA256.new(data).hexdigest().encode(), pub.strip() + b"\n", sized(rng), sized(rng), sig + data, data + sig,
                         s.nickname.encode(), o.public_key], 3):
        g = s.sign(d)
        mon.check(s.signature_valid(d, g) is True and o.signature_valid(d, g, pub) is True, "the signature of %d bytes related to keys and signatures is not valid", len(d))
        mon.check(d == data or s.signature_valid(data, g) is False and s.signature_valid(d, sig) is False, "a signature of related bytes is valid for the data")
        mon.check(s.signature_valid(SHA256.new(d).digest(), g) is False, "a signature is valid for the digest of its data")
        x = alter(rng, d)
        mon.check(s.signature_valid(x, g) is False and T.attempt(s.signature_valid, d.strip() + b"\0", g) is False, "a signature of related bytes is valid for others")
        mon.saw("related_data")
    mon.check(s.signature_valid(data, sig) is True and s.public_key == pub, "a signature is not valid any more")
    # the data is what is bound, not the moment or the object
    if rng.random() < 0.15:
        copy = type(s).from_key_string(s.to_key_string("pw"), "pw")
        g = copy.sign(data)
        mon.check(s.signature_valid(data, g) is True and copy.signature_valid(data, sig) is True, "signatures of a loaded key pair differ")
        mon.saw("loaded_signer")
    for a in K.pool(RsaAuthKeyPair)[:1]:
        mon.check(T.raised(T.attempt(a.encrypt, data, pub)), "an authentication key pair encrypted")
        mon.check(T.raised(T.attempt(a.decrypt, data, pub)), "an authentication key pair decrypted")
        msg = K.pool(RsaKeyPair)[0].encrypt(data, a.public_key)
        mon.check(T.raised(T.attempt(a.decrypt, msg, K.pool(RsaKeyPair)[0].public_key)), "an authentication key pair decrypted a message for its key")
        mon.saw("auth_refuses_encryption")
    for e in K.pool(RsaEncKeyPair)[:1]:
        mon.check(T.raised(T.attempt(e.sign, data)), "an encryption key pair signed")
        mon.check(T.raised(T.attempt(e.signature_valid, data, sig, pub)) and T.raised(T.attempt(e.signature_valid, data, sig)), "an encryption key pair verified a signature")
        mon.saw("enc_refuses_signing")
    for bad in ("text", None, 5, bytearray(b"x")):
        mon.check(T.raised(T.attempt(s.sign, bad)), "%r was signed", bad)
    mon.state(data, sig)


def gen_length(i):
    return {"n": mined.BIG_SIZES[i % len(mined.BIG_SIZES)], "i": i}


def run_length(case, mon):
    """Data of one length, altered near its start, its end and anywhere."""
    rng = random.Random(case["i"])
    s = (K.pool(RsaKeyPair)[:2] + K.pool(RsaAuthKeyPair)[:2])[case["i"] % 4]
    data = rng.randbytes(case["n"])
    sig = s.sign(data)
    mon.mark()
    mon.check(s.signature_valid(data, sig) is True, "the signature of %d bytes is not valid", len(data))
    mon.saw("valid_own")
    for i in {0, len(data) // 2, len(data) - 1, rng.randrange(len(data) + 1)}:
        if 0 <= i < len(data):
            d = bytearray(data)
            d[i] ^= 1 << rng.randrange(8)
            mon.check(s.signature_valid(bytes(d), sig) is False, "a signature is valid for data altered at %d of %d bytes", i, len(data))
            mon.saw("wrong_data")
    for d in (data + b"\x00", data[:-1], data[1:], data + data[-1:]):
        if d != data:
            mon.check(s.signature_valid(d, sig) is False, "a signature of %d bytes is valid for %d bytes", len(data), len(d))
    mon.state(case["n"])


def gen_many(rng, size):
    return {"seed": rng.getrandbits(48), "n": rng.choice((300, 500)), "signer": rng.randrange(4)}


def run_many(case, mon):
    """Hundreds of signatures of one key pair: whatever bytes they begin and end with."""
    rng = random.Random(case["seed"])
    signers = K.pool(RsaKeyPair)[:2] + K.pool(RsaAuthKeyPair)[:2]
    s, o = signers[case["signer"]], signers[case["signer"] - 1]
    pub, before, d = s.public_key, b"", b""
    for i in range(case["n"]):
        last, d = d, rng.choice((b"%d" % i, rng.randbytes(rng.randrange(1, 40))))
        sig = s.sign(d)
        mon.check(s.signature_valid(d, sig) is True, "signature %d of a key pair (%d bytes, %s...) is not valid", i, len(sig), sig[:4].hex())
        mon.check(o.signature_valid(d, sig, pub) is True, "signature %d of a key pair is not valid for another one given its key", i)
        mon.check(sig == before or last == d or s.signature_valid(d, before) is False, "signature %d is valid for other data", i - 1)
        if not sig[0] or not sig[-1]:
            mon.saw("signatures_with_zero_ends")
        mon.state("first", sig[0])
        before = sig
        mon.saw("valid_own")
    mon.mark()


def run_word(case, mon):
    w, i = case["w"], case["i"]
    signers = K.pool(RsaKeyPair)[:2] + K.pool(RsaAuthKeyPair)[:2]
    s, o = signers[i % 4], signers[(i + 1) % 4]
    mon.mark()
    for d in (w, w + b"x", b"x" + w):
        g = s.sign(d)
        mon.check(s.signature_valid(d, g) is True and o.signature_valid(d, g, s.public_key) is True, "the signature of %r is not valid", d)
        for x in (d + b"\0", d[:-1], b"", b" " + d, d.swapcase() + b"."):
            if x != d:
                mon.check(s.signature_valid(x, g) is False, "the signature of %r is valid for %r", d, x)
        mon.check(o.signature_valid(d, g) is False, "the signature of %r is valid for another key pair", d)
    mon.check(s.signature_valid(b"other data", s.sign(b"data")) is False and s.signature_valid(b"data", w) is False, "%r is a signature", w)
    mon.state(w)


SCENARIOS = [
    words.each(run_word, lambda w, i: [{"w": w, "i": i}]),
    scenario("signatures", gen_case, run_case, 350, 8000),
    scenario("lengths", gen_length, run_length, len(mined.BIG_SIZES), enum=True),
    scenario("many", gen_many, run_many, 16, 400),
]
