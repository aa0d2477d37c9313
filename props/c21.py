"""C21: saved keys load back identically and only with their passphrase."""
import base64
import json
import os
import random
import shutil
import tempfile
import unicodedata

from vlib import gen, tries as T, keys as K, words
from vlib.core import scenario
from Crypto.PublicKey import RSA
from pymt.keypairs import RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: key pairs are saved and loaded under generated passphrases and nicknames, saved forms are scanned for the private key"
LEVEL_NOTE = ("in the executed runs every saved key pair loaded back equal with its passphrase, raised with any other, and no saved form "
              "held the private key in any scanned representation")
RULE = ("a case saves a key pair of one of the three classes to a string and to a file under a generated Latin-1 passphrase and nickname "
        "and loads it with the right and with near-miss passphrases, then uses the loaded keys; non-trivial always")
REQUIRED = ["words_tried", "loaded_string", "loaded_file", "wrong_passphrase", "scanned", "signed_with_loaded", "decrypted_with_loaded", "class_RsaKeyPair",
            "class_RsaAuthKeyPair", "class_RsaEncKeyPair", "pairs_equal", "pairs_different", "renamed", "overwritten_file", "rekeyed",
            "damaged_refused", "default_key_size", "alike_passphrases", "saved_again"]
ASSUMPTIONS = ["passphrases are non-empty Latin-1 text without trailing NUL (others are refused when saving)", "key pairs of one class are compared"]

PHRASES = ["a", " ", "p", "passphrase", "Passphrase", "passphrase ", "correct horse battery staple", "pässwörd", "\xff\xfe", "1", "0", "x" * 63, "\"quoted\"", "a\nb",
           "back\\slash", "None", "{}", "'"]
NICKS = ["nick", "ALICE", "Bob Smith", "key", "sender-1", "", " ", "Ни́к", "\U0001f511", "\"quoted\"", "back\\slash", "a\nb", "None", "x" * 500, "{\"nickname\": 1}", "nick ", "a\r\nb", "a\rb\n", "\t\x00\x1f\x7f", "e\u0301\u2028", "\ufeffbom", "%s{}%(x)s"]
CLASSES = (RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair)


def gen_case(rng, size):
    r = rng.random()
    phrase = rng.choice(PHRASES) if r < 0.6 else "".join(chr(rng.choice((rng.randrange(32, 127), rng.randrange(160, 256)))) for _ in range(rng.randrange(1, 40)))
    if rng.random() < 0.25:
        # long ones
        phrase = "".join(chr(rng.randrange(32, 127)) for _ in range(rng.choice((65, 73, 80, 129, 200, 257, 300))))
    if rng.random() < 0.5:
        # with a character that has look-alikes
        i = rng.randrange(len(phrase) + 1)
        phrase = phrase[:i] + rng.choice(("\xb2", "\xb5", "\xaa", "\xbc", "\xa0", "\xad", "\xe9", "\xdf", "\t", "  ", "\xc3\xa9", "K", "\\u0061", "\x85", "\xbe", "+AGE-")) + phrase[i:]
    nick = rng.choice(NICKS) if rng.random() < 0.7 else None
    if rng.random() < 0.2:  # passphrase and nickname in a relation
        try:
            own = rng.choice((nick or "nick", " nick ", "nick\n", "Nick", "the key of nick"))
            own.encode("latin-1")
            if own and not own.endswith("\0"):
                phrase, nick = own, rng.choice((own, own, own, own.strip(), own.upper(), own + " ", own[::-1]))
        except UnicodeEncodeError:
            nick = phrase
    return {"cls": rng.randrange(3), "which": rng.randrange(3), "phrase": phrase, "nick": nick, "seed": rng.getrandbits(32)}


def alike(p):
    """Other Latin-1 passphrases that some treatment of text takes for the same."""
    out = []
    for form in ("NFC", "NFD", "NFKC", "NFKD"):
        q = unicodedata.normalize(form, p)
        out += [q, "".join(c for c in q if not unicodedata.combining(c))]
    out += [p.lower(), p.upper(), p.casefold(), " ".join(p.split()), p.expandtabs(), p.replace("\xa0", " "), p.replace("\xad", ""), "".join(p.split()), p.title()]
    out += ["".join(c for c in p if c.isalnum()), "".join(c for c in p if c.isprintable()), p.encode("ascii", "ignore").decode(), p.encode("ascii", "replace").decode()]
    out.append(p.encode().decode("latin-1"))
    out.append(p.encode("utf-7").decode())
    try:
        out.append(p.encode("latin-1").decode())
    except UnicodeDecodeError:
        pass
    try:
        out.append(p.encode("latin-1").decode("cp1252").encode("latin-1", "ignore").decode("latin-1"))
        out.append(json.loads('"%s"' % p))
    except ValueError:
        pass
    keep = []
    for q in dict.fromkeys(out):
        try:
            q.encode("latin-1")
        except (UnicodeEncodeError, AttributeError):
            continue
        if q and q != p:
            keep.append(q)
    return keep


def near(rng, p):
    out = [p + " ", p + "x", p[:-1], p[1:], p.swapcase(), " " + p, p + p, p[::-1], "", p.strip(), rng.choice(PHRASES), p[:8], p[:16], p[: len(p) // 2]]
    for n in (16, 32, 56, 64, 72, 100, 128, 255, 256):
        if len(p) > n:
            out += [p[:n], p[:n] + "~" * (len(p) - n)]
    i = rng.randrange(len(p))
    c = chr(ord(p[i]) ^ 1)
    out.append(p[:i] + c + p[i + 1:])
    out.append(p[:-1] + chr(ord(p[-1]) ^ 4))
    return [x for x in dict.fromkeys(out) if x != p]


def strings(x):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from strings(k)
            yield from strings(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from strings(v)
    elif isinstance(x, str):
        yield x
    elif x is not None:
        yield str(x)


def scan(mon, text, key, phrase):
    """No private key in the saved text; key: the RSA key object or None."""
    blobs = [text.encode()]
    try:
        found = list(strings(json.loads(text)))
    except ValueError:
        found = []
    for s in found:
        blobs.append(s.encode())
        for dec in (bytes.fromhex, base64.b64decode):
            try:
                b = dec(s)
            except Exception:
                continue
            blobs.append(b)
            if b"-----" in b:
                body = b"".join(l for l in b.splitlines() if b":" not in l and b"-----" not in l)
                try:
                    blobs.append(base64.b64decode(body))
                except Exception:
                    pass
    for b in blobs:
        try:
            k = RSA.import_key(b)
        except Exception:
            k = None
        mon.check(k is None or not k.has_private(), "the saved form holds the private key unencrypted")
        if key is not None:
            for n in (key.d, key.p, key.q):
                raw = n.to_bytes((n.bit_length() + 7) // 8, "big")
                for form in (raw, raw[::-1], b"%d" % n, b"%x" % n, b"%X" % n, base64.b64encode(raw)[:40]):
                    mon.check(form not in b, "the saved form contains a private number")
        mon.saw("scanned")


def same(mon, p, q, cls):
    mon.check(type(q) is cls, "loading gave a %s", type(q).__name__)
    mon.check(q.nickname == p.nickname, "the loaded nickname is %r instead of %r", q.nickname, p.nickname)
    mon.check(q.public_key == p.public_key and q.public_key_string == p.public_key_string, "the loaded public key differs")
    mon.check(p == q and q == p and not (p != q), "the loaded key pair compares unequal")
    mon.check(hash(p) == hash(q), "the loaded key pair has another hash")
    mon.saw("pairs_equal")


def works(mon, p, q, rng):
    data = gen.value(rng)
    if not isinstance(p, RsaEncKeyPair):
        mon.check(p.signature_valid(data, q.sign(data)) is True and q.signature_valid(data, p.sign(data)) is True, "the loaded private key does not sign")
        mon.saw("signed_with_loaded")
    if not isinstance(p, RsaAuthKeyPair):
        o = K.pool(RsaKeyPair)[0]
        mon.check(q.decrypt(o.encrypt(data, p.public_key), o.public_key) == data, "the loaded private key does not decrypt")
        mon.check(o.decrypt(q.encrypt(data, o.public_key), p.public_key) == data, "a message of the loaded key pair does not open")
        mon.saw("decrypted_with_loaded")


def private_key(saved, phrase):
    """The private numbers, when the saved form can be read directly."""
    try:
        return RSA.import_key(bytes.fromhex(json.loads(saved)["private_key"]), passphrase=phrase)
    except Exception:
        return None


def check_pair(mon, p, phrase, rng, d, quick=False):
    cls = type(p)
    mon.saw("class_" + cls.__name__)
    name, pub = p.nickname, p.public_key
    s = p.to_key_string(phrase)
    mon.check(isinstance(s, str), "the saved form is a %s", type(s).__name__)
    q = cls.from_key_string(s, phrase)
    same(mon, p, q, cls)
    mon.saw("loaded_string")
    names = ["key", "key.json", "schlüssel", "a key"]
    if isinstance(name, str) and rng.random() < 0.5:  # files named after their key
        own = "".join(c for c in name if c.isalnum() or c in " .-_")[:60].strip(". ") or "own"
        own = own.encode("utf-8", "ignore").decode()
        names = [f(own) + end for f in (str, str.lower, str.upper, str.title) for end in ("", ".json", ".pem", ".key")]
        mon.saw("files_named_after_keys")
    path = os.path.join(d, rng.choice(names))
    if rng.random() < 0.3:
        with open(path, "w") as f:
            f.write("x" * 20000)
        mon.saw("overwritten_file")
    p.to_key_file(path, phrase)
    q2 = cls.from_key_file(path, phrase)
    same(mon, p, q2, cls)
    mon.saw("loaded_file")
    with open(path, encoding="utf-8") as f:
        text = f.read()
    key = private_key(s, phrase)
    scan(mon, s, key, phrase)
    scan(mon, text, key, phrase)
    works(mon, p, rng.choice((q, q2)), rng)
    wrong = near(rng, phrase)
    wrong = rng.sample(wrong, min(len(wrong), 2 if quick else 5))  # a load takes 0.1 s
    if len(phrase) > 64 and not quick:  # the whole passphrase counts
        wrong += [w for w in (phrase[:-1] + "~", phrase[:64] + "~" * (len(phrase) - 64)) for _ in range(2) if w != phrase]
    twins = alike(phrase)
    if twins and not quick:
        wrong += rng.sample(twins, min(len(twins), 3))
        mon.saw("alike_passphrases")
    i0 = rng.randrange(2)
    for i, w in enumerate(wrong + [""], i0):
        if i % 2 == 0:
            g = T.attempt(cls.from_key_string, s, w)
            mon.check(T.raised(g), "the saved string loads with the passphrase %r instead of %r", w, phrase)
        else:
            g = T.attempt(cls.from_key_file, path, w)
            mon.check(T.raised(g), "the saved file loads with the passphrase %r instead of %r", w, phrase)
        mon.saw("wrong_passphrase")
    for bad in (s[:-1], s[: len(s) // 2], "", "{}", "null"):
        mon.check(T.raised(T.attempt(cls.from_key_string, bad, phrase)), "a damaged key string was loaded")
        mon.saw("damaged_refused")
    mon.check(T.raised(T.attempt(cls.from_key_file, os.path.join(d, "absent"), phrase)), "a missing file was loaded")
    if not quick:
        # saved again in the same place, renamed and under another passphrase
        nick, q2.nickname = q2.nickname, "renamed"
        q2.to_key_file(path, "another one")
        q4 = T.attempt(cls.from_key_file, path, "another one")
        mon.check(not T.raised(q4), "a key saved again in its own file under another passphrase does not load with it")
        same(mon, q2, q4, cls)
        if phrase != "another one":
            mon.check(T.raised(T.attempt(cls.from_key_file, path, phrase)), "a key saved again under another passphrase still loads with the old one")
        q2.nickname = nick
        mon.saw("saved_again")
    # saving again (also what was loaded) and under another passphrase
    q3 = cls.from_key_string(q2.to_key_string("another"), "another")
    same(mon, p, q3, cls)
    mon.check(T.raised(T.attempt(cls.from_key_string, q2.to_key_string("another"), phrase)) or phrase == "another", "a key saved under another passphrase loads with the old one")
    mon.check(p.nickname == name and p.public_key == pub, "saving or loading changed the key pair")
    return q


def run_case(case, mon):
    rng = random.Random(case["seed"])
    mon.mark()
    cls = CLASSES[case["cls"]]
    src = K.pool(cls)[case["which"]]
    d = tempfile.mkdtemp(prefix="verif-c21-")
    try:
        p = cls.from_key_string(src.to_key_string("x"), "x")  # our own copy
        if case["nick"] is not None:
            p.nickname = case["nick"]
            mon.saw("renamed")
        q = check_pair(mon, p, case["phrase"], rng, d)
        # equal exactly when key and nickname are
        q.nickname = p.nickname + "x"
        mon.check(not (p == q) and p != q, "key pairs with different nicknames compare equal")
        q.nickname = p.nickname
        same(mon, p, q, cls)
        o = cls.from_key_string(K.pool(cls)[(case["which"] + 1) % 3].to_key_string("x"), "x")
        o.nickname = p.nickname
        mon.check(not (p == o) and p != o, "key pairs with different keys compare equal")
        mon.check(not (p == p.public_key) and p != None, "a key pair equals something else")  # noqa: E711
        mon.saw("pairs_different", 2)
        if rng.random() < 0.15:
            old = p.to_key_string(case["phrase"])
            p.generate_keypair(1024)
            mon.check(cls.from_key_string(old, case["phrase"]) != p, "a new key equals the old one")
            check_pair(mon, p, case["phrase"], rng, d, True)
            mon.saw("rekeyed")
        mon.state(p.public_key, case["phrase"], case["nick"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen_default(rng, size):
    return {"cls": rng.randrange(3), "nick": rng.choice((None, "nick")), "seed": rng.getrandbits(32)}


def run_default(case, mon):
    """Key pairs as the constructor makes them (slow: 4096 bits)."""
    rng = random.Random(case["seed"])
    mon.mark()
    p = CLASSES[case["cls"]](case["nick"]) if case["nick"] else CLASSES[case["cls"]]()
    mon.check(case["nick"] is None or p.nickname == case["nick"], "the nickname is %r", p.nickname)
    mon.check(isinstance(p.nickname, str) and p.nickname, "the generated nickname is %r", p.nickname)
    mon.check(RSA.import_key(p.public_key).has_private() is False, "the public key is a private key")
    mon.saw("default_key_size")
    d = tempfile.mkdtemp(prefix="verif-c21-")
    try:
        check_pair(mon, p, "a passphrase", rng, d, True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    mon.state(p.public_key)


def gen_named(rng, size):
    return {"cls": rng.randrange(3), "which": rng.randrange(3), "nick": rng.choice([n for n in NICKS if n.strip(" ._-") and all(c.isalnum() or c in " .-_" for c in n)]), "seed": rng.getrandbits(32)}


def run_named(case, mon):
    """Files that are named after the key, or after something like it."""
    rng = random.Random(case["seed"])
    mon.mark()
    cls = CLASSES[case["cls"]]
    p = cls.from_key_string(K.pool(cls)[case["which"]].to_key_string("x"), "x")
    d = tempfile.mkdtemp(prefix="verif-c21-")
    try:
        nick = p.nickname = case["nick"][:60]
        for f in (str, str.lower, str.upper, str.title):
            path = os.path.join(d, f(nick) + rng.choice(("", ".json", ".pem", ".key")))
            p.to_key_file(path, "the phrase")
            q = cls.from_key_file(path, "the phrase")
            mon.check(q.nickname == nick and q == p, "from the file %r comes a key pair called %r instead of %r", os.path.basename(path), q.nickname, nick)
            mon.saw("files_named_after_keys")
        mon.state(nick, case["cls"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_word(case, mon):
    """Words as nickname and passphrase."""
    w, i = case["w"].decode("latin-1"), case["i"]
    cls = CLASSES[i % 3]
    p = K.pool(cls)[i // 3 % 3]
    name = p.nickname
    phrase = w.rstrip("\0") or "\0phrase"
    mon.mark()
    try:
        p.nickname = w
        s = p.to_key_string(phrase)
        q = T.attempt(cls.from_key_string, s, phrase)
        mon.check(not T.raised(q), "a key pair called %r does not load with its passphrase %r: %r", w, phrase, q)
        same(mon, p, q, cls)
        other = [x for x in (phrase + "x", phrase[:-1] + "~", phrase.swapcase(), "", phrase.strip(), w + " ") if x != phrase]
        x = other[i % len(other)]
        mon.check(T.raised(T.attempt(cls.from_key_string, s, x)), "the saved string loads with the passphrase %r instead of %r", x, phrase)
    finally:
        p.nickname = name
    mon.state(w)


SCENARIOS = [
    words.each(run_word, lambda w, i: [{"w": w, "i": i}]),
    scenario("default", gen_default, run_default, 3, 40),
    scenario("saved", gen_case, run_case, 72, 2000),
    scenario("named", gen_named, run_named, 40, 400),
]
