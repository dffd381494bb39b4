"""torch modules with symbolic parameters and buffers."""
import torch

from . import symtorch as st


def symbolize(c, module, tag="w", lo=-2, hi=2, grad=False, ranges=None, buffers=False, dtype=torch.float64):
    """Replace every float parameter (and buffer) by arbitrary values in [lo, hi]; returns {name: flat values}."""
    out = {}
    for prefix, m in module.named_modules():
        for table, on in ((m._parameters, True), (m._buffers, buffers)):
            for k, p in list(table.items()):
                if p is None or not p.dtype.is_floating_point:
                    continue
                full = f"{prefix}.{k}" if prefix else k
                a, b = lo, hi
                for key, r in (ranges or {}).items():
                    if full.endswith(key):
                        a, b = r
                if not on:
                    t = st.real_tensor(c, f"{tag}_{full}", tuple(p.shape), dtype, lo=a, hi=b)
                else:
                    t = st.real_tensor(c, f"{tag}_{full}", tuple(p.shape), dtype, lo=a, hi=b, requires_grad=grad)
                    if not c.symbolic:
                        t = torch.nn.Parameter(t.detach(), requires_grad=grad)
                if not on or c.symbolic:
                    table.pop(k, None)
                table[k] = t
                out[full] = st.vals(t)
    return out
