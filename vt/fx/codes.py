"""PyTorch's own integer codes of dtypes, layouts and memory formats, read from
TorchScript (where those values *are* integers)."""
import warnings

import torch

_cu = None


def _unit():
    global _cu
    if _cu is None:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _cu = torch.jit.CompilationUnit(
                "def dt(x: Tensor) -> int:\n  return x.dtype\n"
                "def lay(x: Tensor) -> int:\n  return x.layout\n")
    return _cu


DTYPES = sorted({v for v in vars(torch).values() if isinstance(v, torch.dtype)}, key=str)


# The compiler's own c10::ScalarType copy (TorchUpstream.h) numbers these two
# differently from current PyTorch; the consumer of the codes is the compiler.
OWN = {"float8_e8m0fnu": 28, "float4_e2m1fn_x2": 29}


def dtype_code(d):
    n = str(d).split(".")[1]
    if n in OWN:
        return OWN[n]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return int(_unit().dt(torch.empty((), dtype=d)))


_MF = None


def memory_format_code(m):
    global _MF
    if _MF is None:
        _MF = {}
        for n in ("contiguous_format", "preserve_format", "channels_last", "channels_last_3d"):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                cu = torch.jit.CompilationUnit(f"def f() -> int:\n  return torch.{n}\n")
            _MF[getattr(torch, n)] = int(cu.f())
    return _MF[m]


LAYOUTS = [torch.strided, torch.sparse_coo, torch.sparse_csr, torch.sparse_csc, torch.sparse_bsr, torch.sparse_bsc]


def layout_code(l):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        name = str(l).split(".")[1]
        cu = torch.jit.CompilationUnit(f"def f() -> int:\n  return torch.{name}\n")
    return int(cu.f())
