"""Files beyond 2 and 4 GiB: which ones to look at (never a verdict)."""


def files(R, T, hows, deep):
    M = 1 << 20
    cs = []
    ns = [(1 << 31) - 1, 1 << 31, (1 << 31) + 3, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, (1 << 33) + 12345]
    for how in hows:
        use = ns if how in ("size", "mm", "chunks") else [(1 << 31) + 3, (1 << 32) + 7]
        if how in ("get", "gets", "rf"):
            use = deep
        for n in use:
            nl = 10 if how == "lines" else 97
            pos = sorted({0, 5, n // 2, n - 1, n - 3} | {p for p in ((1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 3) if p < n and R.random() < 0.7})
            if how == "lines":
                pos = sorted(R.sample(pos, min(len(pos), 4)))
            marks = [[p // M, p % M, R.choice([nl, nl, nl, 98]) if how == "lines" else R.randrange(1, 256)] for p in pos]
            take = [R.choice([1, 7, n // 3, n // 2, n, (1 << 31) + 1, (1 << 32) + 1, (1 << 32)]) for _ in range(4)] + [(1 << 36)]
            cs.append({"how": how, "len": [n // M, n % M], "marks": marks, "take": [[k // M, k % M] for k in take]})
    return cs
