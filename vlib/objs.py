"""Self-encoding values, as extended tries accept them."""


class Item:
    """A value with encode_rlp/decode_rlp; mutable on purpose."""

    __slots__ = ("body", "reads")

    def __init__(self, body):
        self.body = body
        self.reads = 0

    def encode_rlp(self):
        self.reads += 1
        return self.body

    @staticmethod
    def decode_rlp(data):
        return Item(data)

    def __eq__(self, other):
        return isinstance(other, Item) and other.body == self.body

    def __hash__(self):
        return hash(self.body)

    def __repr__(self):
        return "Item(%r)" % (self.body,)


class Odd(Item):
    """The same with every other answer an object can give misleading: it
    counts as false and as empty, equals everything, and keeps the hash it had
    when it was made."""

    __slots__ = ("made",)

    def __init__(self, body):
        Item.__init__(self, body)
        self.made = hash(body)

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return self.made

    def __bytes__(self):
        return b"odd"


def enc(value):
    """The encoded bytes of a value given to or returned by an extended trie."""
    if isinstance(value, (bytes, bytearray)):
        return bytes(value)
    return value.encode_rlp()


def make(kind, body):
    """kind 0 bytes, 1 bytearray, 2 object, 3 object that misleads."""
    return bytes(body) if kind == 0 else bytearray(body) if kind == 1 else (Item if kind == 2 else Odd)(bytes(body))
