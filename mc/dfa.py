"""Minimal deterministic automaton of the element syntax, with a state cover and a characterising set
(the ingredients of the W-method of conformance testing)."""


class Dfa:
    def __init__(self, patterns, alphabet, output):
        """patterns: lists of character sets; output(word) -> class of a complete word."""
        self.alphabet = alphabet
        start = frozenset((i, 0) for i in range(len(patterns)))
        # subset construction with access words
        access = {start: ""}
        trans = {}
        todo = [start]
        while todo:
            s = todo.pop(0)
            row = {}
            for c in alphabet:
                n = frozenset((i, p + 1) for i, p in s if p < len(patterns[i]) and c in patterns[i][p])
                row[c] = n
                if n not in access:
                    access[n] = access[s] + c
                    todo.append(n)
            trans[s] = row
        sink = frozenset()
        if sink not in access:
            access[sink] = "/A"
            trans[sink] = {c: sink for c in alphabet}
        # Moore minimisation, recording a distinguishing suffix whenever a block is split
        out = {s: output(w) if s else ("UNKNOWN", "UNKNOWN") for s, w in access.items()}
        states = list(access)
        sig = {s: out[s] for s in states}
        wset = [""]
        suffix_of = {}          # pair of blocks is separated by the suffixes collected so far
        while True:
            ids = {}
            block = {s: ids.setdefault(sig[s], len(ids)) for s in states}
            nsig = {s: (block[s],) + tuple(block[trans[s][c]] for c in alphabet) for s in states}
            if len(set(nsig.values())) == len(ids):
                break
            sig = nsig
        reps = {}
        for s in states:
            reps.setdefault(block[s], s)
        self.block = block
        self.trans = {b: {c: block[trans[s][c]] for c in alphabet} for b, s in reps.items()}
        self.out = {b: out[s] for b, s in reps.items()}
        self.start = block[start]
        self.sink = block[sink]
        cover = {}
        for s in states:
            b = block[s]
            if b not in cover or len(access[s]) < len(cover[b]):
                cover[b] = access[s]
        self.cover_of = cover
        self.cover = [cover[b] for b in sorted(cover, key=lambda b: (len(cover[b]), cover[b]))]
        self.wset = self._characterise()

    def _out_after(self, b, w):
        for c in w:
            b = self.trans[b][c]
        return self.out[b]

    def _shortest(self, a, b):
        todo = [(a, b, "")]
        seen = {(a, b)}
        while todo:
            x, y, w = todo.pop(0)
            if self.out[x] != self.out[y]:
                return w
            for c in self.alphabet:
                n = (self.trans[x][c], self.trans[y][c])
                if n[0] != n[1] and n not in seen:
                    seen.add(n)
                    todo.append((n[0], n[1], w + c))
        raise AssertionError("equivalent states")

    def _characterise(self):
        groups = [sorted(self.trans)]
        wset = []
        while True:
            g = next((g for g in groups if len(g) > 1), None)
            if g is None:
                break
            w = self._shortest(g[0], g[1])
            wset.append(w)
            new = []
            for h in groups:
                d = {}
                for b in h:
                    d.setdefault(self._out_after(b, w), []).append(b)
                new += list(d.values())
            groups = new
        return sorted(set(wset) | {""}, key=lambda w: (len(w), w))

    def run(self, word):
        b = self.start
        for c in word:
            t = self.trans[b]
            b = t[c] if c in t else self.sink
            if b == self.sink:
                return b
        return b
