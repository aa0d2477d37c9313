"""C20: encrypted messages open only intact, by the receiver, from the sender."""
import hashlib
import json
import random

from vlib import gen, mined, tries as T, keys as K, words
from vlib.core import scenario
from props.c19 import alter, sized
from pymt.utils.hash import keccak_hash
from pymt.keypairs import RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated messages travel intact and with their envelope altered; the only answers allowed are the original or an exception"
LEVEL_NOTE = "in the executed runs intact envelopes opened to the original at the receiver only, and every altered envelope raised"
RULE = ("a case encrypts byte strings of many lengths between general and encryption key pairs and shows the envelope intact, to other "
        "receivers, with other senders, with every field flipped, cut, extended, removed, exchanged with another message, or with a "
        "session key, nonce and tag made by somebody else around the signed ciphertext; non-trivial always")
REQUIRED = ["words_tried", "opened", "wrong_sender", "wrong_receiver", "altered_enc_session_key", "altered_nonce", "altered_tag", "altered_ciphertext",
            "altered_signature", "exchanged", "missing_field", "not_an_envelope", "plaintext_not_visible", "empty_message", "long_message",
            "enc_class", "fresh_envelopes", "other_key_size", "session_keys", "not_derived", "related_messages"]
ASSUMPTIONS = ["an envelope is the JSON object with the five hex fields the library writes", "RSA-OAEP, RSA PKCS#1 v1.5 and AES-EAX are secure"]

FIELDS = ("enc_session_key", "nonce", "tag", "ciphertext", "signature")


def gen_case(rng, size):
    data = rng.choice((b"", b"\x00", gen.value(rng, True, True), gen.value(rng), gen.shaped(rng), gen.shaped(rng), rng.randbytes(rng.choice((15, 16, 17, 32, 255, 4096, 70000)))))
    if rng.random() < 0.12:
        data = sized(rng)
    return {"data": data, "other": gen.value(rng, False, True), "seed": rng.getrandbits(32), "s": rng.randrange(6), "r": rng.randrange(6)}


def never(mon, receiver, env, sender, what, data):
    g = T.attempt(receiver.decrypt, env, sender)
    mon.check(T.raised(g), "%s: decryption gave %s instead of raising%s", what, T.hx(g), " (the original)" if g == data else "")


def run_case(case, mon):
    rng = random.Random(case["seed"])
    data = case["data"]
    people = K.pool(RsaKeyPair) + K.pool(RsaEncKeyPair)
    s, r = people[case["s"]], people[case["r"]]
    third = people[rng.choice([i for i in range(6) if i not in (case["s"], case["r"])])]
    mon.mark()
    if isinstance(s, RsaEncKeyPair) or isinstance(r, RsaEncKeyPair):
        mon.saw("enc_class")
    if not data:
        mon.saw("empty_message")
    if len(data) > 4000:
        mon.saw("long_message")
    env = s.encrypt(data, r.public_key)
    mon.check(isinstance(env, bytes), "the envelope is a %s", type(env).__name__)
    for _ in range(2):
        mon.check(r.decrypt(env, s.public_key) == data, "the message does not open to the original")
        mon.saw("opened")
    env2 = s.encrypt(data, r.public_key)
    mon.check(env2 != env, "the same message twice gives the same envelope")
    mon.check(r.decrypt(env2, s.public_key) == data, "the second message does not open")
    mon.saw("fresh_envelopes")
    e = json.loads(env)
    if len(data) >= 8:
        # the names of the fields are no part of the message, whatever it says
        skeleton = json.dumps({f: "" for f in e}).encode()
        shown = b"\n".join(x for f in e for x in (bytes.fromhex(e[f]), e[f].encode() if len(data) >= 16 else b""))
        mon.check(data not in shown and data.hex().encode() not in env, "the envelope contains the plaintext")
        mon.check(data not in env or data in skeleton or len(data) < 16 and data.strip(b"0123456789abcdef") == b"", "the envelope contains the plaintext as text")
        e2 = json.loads(env2)
        mon.check(e2["ciphertext"] != e["ciphertext"], "the same message twice gives the same ciphertext")
        mon.saw("plaintext_not_visible")
    # messages made of envelopes, their parts, keys and signatures
    if len(env) < 20000:
        for d in rng.sample([env, env[:-1], json.dumps(e, indent=1).encode(), json.dumps(dict(reversed(e.items()))).encode(), bytes.fromhex(e["ciphertext"]) + b"\0", e["signature"].encode(),
                             bytes.fromhex(e["enc_session_key"]), s.public_key, r.public_key, b"[%s]" % env, env + b"\n", b" " + env, json.dumps({f: "" for f in e}).encode(), sized(rng)], 3):
            m = s.encrypt(d, r.public_key)
            g = T.attempt(r.decrypt, m, s.public_key)
            mon.check(g == d, "a message related to envelopes and keys (%d bytes) opens to %s", len(d), T.hx(g))
            never(mon, third, m, s.public_key, "another receiver of such a message", d)
            never(mon, r, m, third.public_key, "another sender of such a message", d)
            mon.saw("related_messages")
    # another size of key on either side
    if rng.random() < 0.3:
        b = K.big()
        m = b.encrypt(data, r.public_key)
        mon.check(r.decrypt(m, b.public_key) == data, "a message from a longer key does not open")
        m = s.encrypt(data, b.public_key)
        mon.check(b.decrypt(m, s.public_key) == data, "a message to a longer key does not open")
        never(mon, r, m, s.public_key, "a message for a receiver with a longer key", data)
        mon.saw("other_key_size")
    # wrong people
    for wrong in {third.public_key, K.big().public_key, r.public_key} - {s.public_key}:
        never(mon, r, env, wrong, "another sender's key", data)
        mon.saw("wrong_sender")
    for p in (third, K.big()) + ((s,) if s is not r else ()):
        never(mon, p, env, s.public_key, "another receiver", data)
        mon.saw("wrong_receiver")
    never(mon, r, env, alter(rng, s.public_key[:-20]), "a malformed sender key", data)
    for a in K.pool(RsaAuthKeyPair)[:1]:
        m = s.encrypt(data, a.public_key)
        never(mon, a, m, s.public_key, "an authentication key pair as receiver", data)
    # every field altered
    for f in FIELDS:
        for _ in range(3):
            raw = bytes.fromhex(e[f])
            x = dict(e)
            x[f] = alter(rng, raw).hex()
            never(mon, r, json.dumps(x).encode(), s.public_key, "altered %s" % f, data)
            mon.saw("altered_" + f)
        x = dict(e)
        x[f] = rng.choice(("", "zz", "0", None, 5, [e[f]], rng.randbytes(len(e[f]) // 2).hex() or "00", "00" * (len(e[f]) // 2 + 1), e[rng.choice([g for g in FIELDS if g != f])] or "00"))
        if x[f] != e[f]:
            never(mon, r, json.dumps(x).encode(), s.public_key, "another %s" % f, data)
        x = dict(e)
        del x[f]
        never(mon, r, json.dumps(x).encode(), s.public_key, "no %s" % f, data)
        mon.saw("missing_field")
    # parts of other messages by the same people and by others
    odata = case["other"]
    oenvs = [json.loads(s.encrypt(odata, r.public_key)), json.loads(env2), json.loads(third.encrypt(odata, r.public_key)), json.loads(s.encrypt(data, third.public_key))]
    for o in oenvs:
        for _ in range(4):
            part = rng.sample(FIELDS, rng.randrange(1, 5))
            x = dict(e)
            for f in part:
                x[f] = o[f]
            if x == e or x == o:
                continue
            g = T.attempt(r.decrypt, json.dumps(x).encode(), s.public_key)
            mon.check(T.raised(g), "fields %r exchanged with another message: decryption gave %s", part, T.hx(g))
            mon.saw("exchanged")
    # somebody without any private key puts another envelope around the signed ciphertext
    forge(mon, rng, e, s, r, data)
    for junk in (b"", b"{}", b"[]", b"null", b"5", env[:-1], env[1:], env[: len(env) // 2], b"\xff" + env, env.replace(b"{", b"[", 1), data, odata):
        never(mon, r, junk, s.public_key, "no envelope", data)
        mon.saw("not_an_envelope")
    mon.check(r.decrypt(env, s.public_key) == data, "the message does not open any more")
    for bad in ("text", None, 5):
        mon.check(T.raised(T.attempt(s.encrypt, bad, r.public_key)), "%r was encrypted", bad)
        mon.check(T.raised(T.attempt(s.encrypt, data, bad)), "encrypted for the key %r", bad)
    mon.state(data, e["nonce"])


def forge(mon, rng, e, s, r, data):
    from Crypto.Cipher import AES, PKCS1_OAEP
    from Crypto.PublicKey import RSA
    ct = bytes.fromhex(e["ciphertext"])
    key, nonce = rng.randbytes(16), rng.randbytes(16)
    plain = AES.new(key, AES.MODE_EAX, nonce).decrypt(ct)
    c2, tag = AES.new(key, AES.MODE_EAX, nonce).encrypt_and_digest(plain)
    x = dict(e)
    x.update(enc_session_key=PKCS1_OAEP.new(RSA.import_key(r.public_key)).encrypt(key).hex(), nonce=nonce.hex(), tag=tag.hex(), ciphertext=c2.hex())
    never(mon, r, json.dumps(x).encode(), s.public_key, "another session key, nonce and tag around the signed ciphertext", data)
    mon.saw("exchanged")


def gen_length(i):
    return {"n": mined.BIG_SIZES[i % len(mined.BIG_SIZES)], "i": i}


def run_length(case, mon):
    """Messages of one length, altered near the start, the end and anywhere."""
    rng = random.Random(case["i"])
    people = K.pool(RsaKeyPair) + K.pool(RsaEncKeyPair)
    s, r = people[case["i"] % 6], people[case["i"] // 6 % 6]
    third = people[rng.choice([i for i in range(6) if people[i] is not s])]
    data = rng.randbytes(case["n"])
    mon.mark()
    env = s.encrypt(data, r.public_key)
    mon.check(r.decrypt(env, s.public_key) == data, "a message of %d bytes does not open to the original", len(data))
    mon.saw("opened")
    never(mon, r, env, third.public_key, "another sender's key on %d bytes" % len(data), data)
    e = json.loads(env)
    ct = bytearray.fromhex(e["ciphertext"])
    for i in {0, len(ct) // 2, len(ct) - 1, rng.randrange(len(ct) + 1)}:
        if 0 <= i < len(ct):
            ct[i] ^= 4
            never(mon, r, json.dumps(dict(e, ciphertext=ct.hex())).encode(), s.public_key, "ciphertext altered at %d of %d" % (i, len(ct)), data)
            ct[i] ^= 4
    for c in (bytes(ct) + b"\x00", bytes(ct)[:-1], bytes(ct)[1:]):
        if c != bytes(ct):
            never(mon, r, json.dumps(dict(e, ciphertext=c.hex())).encode(), s.public_key, "ciphertext of %d instead of %d bytes" % (len(c), len(ct)), data)
    mon.check(r.decrypt(env, s.public_key) == data, "the message does not open any more")
    mon.state(case["n"])


def session(r_key, e):
    """The session key of an envelope, None if it is not put together as the
    documentation says."""
    from Crypto.Cipher import AES, PKCS1_OAEP
    try:
        key = PKCS1_OAEP.new(r_key).decrypt(bytes.fromhex(e["enc_session_key"]))
        AES.new(key, AES.MODE_EAX, bytes.fromhex(e["nonce"])).decrypt_and_verify(bytes.fromhex(e["ciphertext"]), bytes.fromhex(e["tag"]))
    except (ValueError, KeyError, TypeError):
        return None
    return key


def derived(parts, n):
    """What somebody without any key would try first."""
    out = set()
    for p in parts:
        for q in (p, p[::-1]):
            out.update(q[i:i + n] for i in range(len(q) - n + 1))
            out.add(q[:n].rjust(n, b"\0"))
            out.add(q[:n].ljust(n, b"\0"))
            for h in (hashlib.sha256, hashlib.sha1, hashlib.md5, hashlib.sha512, hashlib.sha3_256):
                d = h(q).digest()
                x = h(q).hexdigest().encode()
                out.update((d[:n], d[-n:], x[:n], x[-n:]))
            out.add(keccak_hash(q)[:n])
    return out


def gen_sessions(rng, size):
    return {"seed": rng.getrandbits(48), "n": 300, "s": rng.randrange(6), "r": rng.randrange(6), "len": rng.choice((0, 1, 40))}


def run_sessions(case, mon):
    """Many messages: nothing in an envelope tells the key of any of them."""
    from Crypto.PublicKey import RSA
    rng = random.Random(case["seed"])
    people = K.pool(RsaKeyPair) + K.pool(RsaEncKeyPair)
    s, r = people[case["s"]], people[case["r"]]
    r_key = RSA.import_key(bytes.fromhex(json.loads(r.to_key_string("pw"))["private_key"]), passphrase="pw")
    data = rng.randbytes(case["len"])
    state = random.getstate()
    keys, nonces, cts = [], [], []
    public = [s.public_key, r.public_key, s.nickname.encode(), r.nickname.encode(), b"", b"\0" * 16, data]
    try:
        for i in range(case["n"]):
            if i % 2:
                random.seed(5)
            e = json.loads(s.encrypt(data, r.public_key))
            key = session(r_key, e)
            if key is None:
                continue
            mon.check(len(key) >= 16, "a session key of %d bytes", len(key))
            raw = [bytes.fromhex(e[f]) for f in FIELDS]
            if i < 12:
                mon.check(key not in derived(public + raw + [b"".join(raw), b"".join(raw[1:3])], len(key)), "the session key can be read off the envelope")
                mon.saw("not_derived")
            keys.append(key)
            nonces.append(bytes.fromhex(e["nonce"]))
            cts.append(e["ciphertext"])
    finally:
        random.setstate(state)
    if len(keys) < case["n"]:
        return
    mon.saw("session_keys", len(keys))
    mon.check(len(set(keys)) == len(keys), "%d messages share %d session keys", len(keys), len(set(keys)))
    mon.check(len(set(zip(keys, nonces))) == len(keys), "session key and nonce repeat")
    n = min(map(len, keys))
    cols = [bytes(k[i] for k in keys) for i in range(n)]
    for i, col in enumerate(cols):
        # 300 random bytes take some 177 of 256 values
        mon.check(len(set(col)) > 120, "byte %d of the session keys takes %d values in %d messages", i, len(set(col)), len(col))
    for i in range(n):
        for j in range(i):
            same = sum(a == b for a, b in zip(cols[i], cols[j]))
            mon.check(same < 30, "bytes %d and %d of the session keys agree in %d of %d messages", j, i, same, len(keys))
    mon.mark()


def run_word(case, mon):
    w, i = case["w"], case["i"]
    people = K.pool(RsaKeyPair) + K.pool(RsaEncKeyPair)
    s, r = people[i % 6], people[(i + 1) % 6]
    mon.mark()
    for d in (w, w * 3) if i % 2 else (w,):
        m = s.encrypt(d, r.public_key)
        g = T.attempt(r.decrypt, m, s.public_key)
        mon.check(g == d, "the message %r opens to %s", d, T.hx(g))
        never(mon, r, m, people[(i + 2) % 6].public_key, "another sender", d)
        e = json.loads(m)
        f = FIELDS[i % 5]
        e[f] = alter(random.Random(i), bytes.fromhex(e[f])).hex()
        never(mon, r, json.dumps(e).encode(), s.public_key, "altered %s" % f, d)
    mon.state(w)


SCENARIOS = [
    words.each(run_word, lambda w, i: [{"w": w, "i": i}]),
    scenario("messages", gen_case, run_case, 220, 5000),
    scenario("sessions", gen_sessions, run_sessions, 10, 200),
    scenario("lengths", gen_length, run_length, len(mined.BIG_SIZES), enum=True),
]
