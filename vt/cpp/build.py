"""Source text of a harness together with the code cut from /repo."""
import functools
import os

from . import extract as E

HERE = os.path.dirname(os.path.abspath(__file__))
MINI = os.path.join(HERE, "mini")
INC, LIB = "include/torch-mlir/Dialect/Torch/", "lib/Dialect/Torch/"
TORCH_IR = ((INC + "IR/TorchTypes.h", "mlir::torch::Torch"), (INC + "Utils/TorchUpstream.h", ""), (INC + "IR/TorchOps.h", "mlir::torch::Torch"),
            (INC + "Utils/Utils.h", "mlir::torch::Torch"), (LIB + "IR/TorchTypes.cpp", "mlir::torch::Torch"),
            (LIB + "Utils/TorchUpstream.cpp", "mlir::torch::Torch"), (LIB + "Utils/Utils.cpp", "mlir::torch::Torch"),
            (LIB + "IR/TorchDialect.cpp", "mlir::torch::Torch"), (LIB + "IR/TorchOps.cpp", "mlir::torch::Torch"))


@functools.lru_cache(None)
def unit(files, drop=()):
    prov = E.provided_names(os.path.join(MINI, "core.h"), os.path.join(MINI, "torch.h"))
    return E.Unit(files, prov, drop)


@functools.lru_cache(None)
def defs():
    return E.opdefs()


def tu(wanted, harness, files=TORCH_IR, drop=(), seeds=()):
    """(source, descriptions of the functions cut out)"""
    u = unit(tuple(files), tuple(drop))
    idx = u.slice(list(wanted), seeds)
    cut = u.render(idx)
    hw = open(os.path.join(MINI, "torch.h")).read()
    ops = E.op_classes(cut + harness, defs(), E.provided_names(os.path.join(MINI, "torch.h")))
    names = sorted({f"{u.chunks[i].file}: {(u.chunks[i].method + '::') if u.chunks[i].method else ''}{u.chunks[i].names[0]}" for i in idx
                    if u.chunks[i].kind == "fn" and u.chunks[i].names and "{" in u.chunks[i].text})
    return '#include "torch.h"\n#include "shim.h"\n' + ops + cut + '\nusing namespace mlir;\nusing namespace mlir::torch;\n' + harness, names
