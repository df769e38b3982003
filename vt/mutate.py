"""Hostile text: alterations of good text, and text made of a language's symbols at random."""
NUMS = ["0", "-1", "1", "2", "255", "256", "257", "-2147483648", "2147483647", "2147483648", "4294967295", "4294967296", "99999999999999999999", "1e308", "1e-308", "-0", "007", "0x10", "nan", "inf"]
def garble(rng, s, alphabet, others=("",)):
    """s altered in a few places"""
    s = list(s)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        i = rng.randint(0, len(s)); k = rng.random(); j = min(len(s), i + rng.choice([1, 1, 2, 4, 10, 40]))
        if k < .22: s[i:j] = []
        elif k < .40: s[i:i] = rng.choice(alphabet)
        elif k < .52: s[i:i + 1] = rng.choice(alphabet)
        elif k < .60: s[i:i] = chr(rng.choice([0, 1, 9, 10, 11, 12, 13, 27, 32, 127, 128, 160, 195, 255, rng.randrange(256)]))
        elif k < .70: s[i:i] = s[i:j] * rng.choice([1, 1, 2, 3, 20])
        elif k < .78: s[i:] = []
        elif k < .84: o = rng.choice(others); a = rng.randint(0, len(o)); s[i:j] = o[a:a + rng.choice([1, 3, 10, 50])]
        elif k < .92: s[i:j if rng.random() < .5 else i] = rng.choice(NUMS)
        elif k < .94: s[i:i] = rng.choice(alphabet) * rng.choice([50, 300, 3000, 70000] if rng.random() < .3 else [8, 20, 40])
        else:
            j = rng.randint(0, len(s)); a, b = sorted((i, j)); s[a:b] = s[a:b][::-1]
    return "".join(s)
def soup(rng, alphabet, n=24):
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(0, n)))
def hostile(rng, good, alphabet, others=("",)):
    k = rng.random()
    if k < .15: return good
    if k < .35: return soup(rng, alphabet)
    if k < .37: return "".join(chr(rng.randrange(256)) for _ in range(rng.randint(0, 30)))
    return garble(rng, good, alphabet, others)
