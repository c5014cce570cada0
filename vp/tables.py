"""Reads of a table at a symbolic index.

A read is an uninterpreted function named by the exact tuple of cell terms, so
two reads of the same contents at the same index are the same term; `TABLES`
keeps the cells so that terms can still be evaluated.
"""
import z3
from .bv import BV

TABLES = {}  # function name -> list of z3 terms, or of ints for a constant table
_names = {}
_fns = {}


def table_read(cells, idx):
    w = cells[0].w
    const = all(c.conc for c in cells)
    if const:
        key = (idx.w, w, tuple(c.v for c in cells))
    else:
        zs = [c.z() for c in cells]
        key = (idx.w, w, tuple(z.get_id() for z in zs))
    nm = _names.get(key)
    if nm is None:
        nm = f"table!{len(_names)}!{idx.w}x{w}"
        _names[key] = nm
        TABLES[nm] = [c.v for c in cells] if const else zs
        _fns[nm] = z3.Function(nm, z3.BitVecSort(idx.w), z3.BitVecSort(w))
    return BV(w, _fns[nm](idx.z()))


def kids(e):
    ch = e.children()
    if len(ch) == 1 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        t = TABLES.get(e.decl().name())
        if t is not None and not isinstance(t[0], int):
            return ch + t
    return ch
