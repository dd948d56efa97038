"""Character sets and string enumerations shared by the checks."""
import itertools

# Every character with a special meaning somewhere in the syntaxes, plus representatives of each class.
SPECIAL = ['"', "'", "\\", "\n", "\r", "\t", "\b", "\f", "\0", "\x0b", "\x1f", " ", "a", "u", "U", "n", "0", "-", ".", "@", "^", "<", ">", "#",
           "_", ":", ";", ",", "{", "%", "\x7f", "\x85", "\xa0", "\u00e9", "\u2028", "\ufeff", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff"]
CORE = ['"', "'", "\\", "\n", "\r", "\t", "a", "u", "0", " ", "\0", "\x7f", "\u00e9", "\U0001f600"]


def codepoints():
    return itertools.chain(range(0, 0xD800), range(0xE000, 0x110000))


def batches(it, n):
    it = iter(it)
    while True:
        b = tuple(itertools.islice(it, n))
        if not b:
            return
        yield b


def strings(alphabet, maxlen):
    for n in range(maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield "".join(t)
