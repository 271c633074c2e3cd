"""Tables of PyTorch itself, for the harnesses."""


def promotion():
    """P: promote_types of two dtype codes; Rab: result_type of two arguments,
    each a tensor with dimensions (0), a tensor without (1) or a number (2).
    -1 where PyTorch raises or gives a dtype without a code here."""
    import warnings

    import torch

    code = {0: "uint8", 1: "int8", 2: "int16", 3: "int32", 4: "int64", 5: "float16", 6: "float32", 7: "float64", 8: "complex32", 9: "complex64", 10: "complex128",
            11: "bool", 12: "qint8", 13: "quint8", 14: "qint32", 15: "bfloat16", 23: "float8_e5m2", 24: "float8_e4m3fn", 25: "float8_e5m2fnuz", 26: "float8_e4m3fnuz"}
    dt = {c: getattr(torch, n) for c, n in code.items()}
    inv = {v: k for k, v in dt.items()}

    def get(f):
        try:
            return inv.get(f(), -1)
        except RuntimeError:
            return -1

    P = [get(lambda: torch.promote_types(dt[a], dt[b])) if a in dt and b in dt else -1 for a in range(30) for b in range(30)]

    def arg(cat, c):
        if c not in dt or (cat == 2 and c not in (4, 7)) or 12 <= c <= 14:
            return None
        return {4: 1, 7: 1.0}[c] if cat == 2 else torch.empty((2,) if cat == 0 else (), dtype=dt[c])

    out = f"static const int8_t P[{len(P)}] = {{{', '.join(map(str, P))}}};\n"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for ca in range(3):
            for cb in range(3):
                args = [(arg(ca, a), arg(cb, b)) for a in range(30) for b in range(30)]
                R = [-1 if x is None or y is None or (ca == 2 and cb == 2) else get(lambda: torch.result_type(x, y)) for x, y in args]
                out += f"static const int8_t R{ca}{cb}[900] = {{{', '.join(map(str, R))}}};\n"
    fs = "".join(f"__attribute__((noinline)) inline int64_t r{a}{b}(int64_t i) {{ return R{a}{b}[i]; }}\n" for a in range(3) for b in range(3))
    return out + fs + "inline int64_t R(int64_t c, int64_t i) { " + " ".join(f"if (c == {3 * a + b}) return r{a}{b}(i);" for a in range(3) for b in range(3)) + " return -1; }\n"
