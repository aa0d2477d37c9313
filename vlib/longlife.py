"""One object that lives long: thousands of operations on a few keys.

What happens only every so many operations, once a bounded cache is full or a
counter runs over shows here and nowhere else."""
import random

from . import tries as T


def gen_long(rng, size):
    return {"secure": rng.random() < 0.4, "n": rng.choice((600, 1100, 1100, 2100, 4200)), "nkeys": rng.choice((3, 8, 30, 120)), "klen": rng.choice((1, 2, 8, 32)),
            "vlen": rng.choice((2, 8, 40, 40, 100)), "dels": rng.choice((0.02, 0.2, 0.45)), "fresh": rng.choice((0.0, 0.05, 0.5)),
            "kind": rng.choice(("mpt", "mpt", "empt", "sparse")), "seed": rng.getrandbits(48), "often": rng.choice((0.05, 0.3, 1.0))}


def keys_of(case, rng):
    out = {rng.randbytes(case["klen"]) for _ in range(case["nkeys"])}
    return sorted(out) + [b"never stored", b""][: 1 + (case["nkeys"] % 2)]


def steps(case, rng, keys, model):
    """Operations on `model` (not applied to it), one after another."""
    stored = keys[:-1] if keys[-1] == b"never stored" else keys[:-2]
    pool = [rng.randbytes(case["vlen"]) for _ in range(5)]
    n = 0
    for i in range(case["n"]):
        k = rng.choice(stored)
        if model and rng.random() < case["dels"]:
            yield i, ("del", k if k in model else rng.choice(list(model)))
        else:
            n += 1
            v = (b"%d/" % n + rng.randbytes(case["vlen"]))[: case["vlen"]] if rng.random() < case["fresh"] else rng.choice(pool)
            yield i, ("put", k, v or b"v")


def live(case, mon, trie, each, rare, rng=None):
    """Runs the operations on `trie`; `each(i, op, model)` after some, `rare(i, model)` now and then."""
    rng = rng or random.Random(case["seed"])
    keys = keys_of(case, rng)
    model = {}
    for i, op in steps(case, rng, keys, model):
        T.apply(trie, model, op)
        if each is not None and rng.random() < case["often"]:
            each(i, op, model, keys)
        if i % 256 in (0, 255, 128) or rng.random() < 0.004:
            rare(i, model, keys)
            mon.state(i, trie.root_hash())
    rare(case["n"], model, keys)
    mon.saw("operations_of_long_lives", case["n"])
    mon.mark()
    return model, keys
