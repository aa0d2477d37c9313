"""Every object that verifies proofs for one root."""
from pymt.mpt import MPT
from pymt.empt import EMPT, SparseEMPT, RootEMPT
from .stores import GetSet


def of_mpt(trie, storage):
    """(name, verifier) holding the same root as trie; storage: its dict."""
    root, secure = trie.root(), trie.secure
    out = [
        ("the trie", trie),
        ("a trie reopened on the storage", MPT(storage, root, secure=secure)),
        ("a trie without nodes", MPT({}, root, secure=secure)),
        ("a decoded trie", MPT.decode(trie.encode())),
        ("a sparse view", SparseEMPT(trie_storage=dict(storage), root=root, secure=secure)),
        ("a root-only view", RootEMPT(root, secure=secure)),
    ]
    out.append(("a decoded root-only view", RootEMPT.decode_rlp(out[-1][1].encode_rlp())))
    out.append(("a decoded sparse view", SparseEMPT.decode_rlp(out[4][1].encode_rlp())))
    return out


def light(trie, storage):
    root, secure = trie.root(), trie.secure
    return [("the trie", trie), ("a root-only view", RootEMPT(root, secure=secure)),
            ("a trie reopened on the storage", MPT(storage, root, secure=secure))]


def of_empt(empt):
    sparse = empt.get_sparse_trie()
    root = empt.get_root_trie()
    return [
        ("the extended trie", empt),
        ("its sparse view", sparse),
        ("its root-only view", root),
        ("the root-only view of its sparse view", sparse.get_root_trie()),
        ("a decoded sparse view", SparseEMPT.decode_rlp(sparse.encode_rlp())),
        ("a decoded root-only view", RootEMPT.decode_rlp(root.encode_rlp())),
    ]
