"""
Source of all random decisions.

Cases are built by ordinary functions that ask a `Src` for decisions; every
decision is a draw of Hypothesis (or, in the coverage-guided tier, of the byte
string handed to Hypothesis by atheris), so that failures shrink and replay.
The first choice is always the simplest one.
"""
from hypothesis import strategies as st

_cache = {}


def _strategy(key, make):
    if key not in _cache:
        _cache[key] = make()
    return _cache[key]


TEXTS = [
    "", "a", "some text", "Text with Ümläuts", "日本語", " leading",
    "trailing ", "two\nlines", "tab\there", "'quotes' \"double\"", "50 % of {it}",
    "a_b", "back\\slash", "None", "nan", "0", "1.0", "x" * 70, "é" * 40,
    "https://example.org/?a=1&b=2", "😀 smile", "-", "\n", "  ",
]

_CHARS = st.characters(codec="utf-8", exclude_categories=("Cc", "Cs", "Cn"))


class Src:
    def __init__(self, draw):
        self.draw = draw

    def int(self, low, high):
        return self.draw(_strategy(("i", low, high),
                                   lambda: st.integers(low, high)))

    def choice(self, items):
        items = list(items)
        return items[self.int(0, len(items) - 1)]

    def weighted(self, *pairs):
        """weighted((weight, value), ...)"""
        x = self.int(0, sum(p[0] for p in pairs) - 1)
        for weight, value in pairs:
            if x < weight:
                return value
            x -= weight

    def chance(self, percent):
        return self.int(0, 99) >= 100 - percent

    def subset(self, items, percent=50):
        return [i for i in items if self.chance(percent)]

    def sample(self, items, maximum):
        """Up to `maximum` different items."""
        items = list(items)
        out = []
        for _ in range(self.int(0, min(maximum, len(items)))):
            out.append(items.pop(self.int(0, len(items) - 1)))
        return out

    def float(self):
        return self.draw(_strategy("f", lambda: st.floats(
            allow_nan=False, width=64)))

    def text(self, ascii=False, max_size=12):
        kind = self.int(0, 9)
        if kind < 5:
            pool = [t for t in TEXTS if t.isascii()] if ascii else TEXTS
            return self.choice(pool)
        if kind < 8 or ascii:
            return self.draw(_strategy(("ta", max_size), lambda: st.text(
                st.characters(min_codepoint=32, max_codepoint=126),
                max_size=max_size)))
        return self.draw(_strategy(("t", max_size), lambda: st.text(
            _CHARS, max_size=max_size)))
