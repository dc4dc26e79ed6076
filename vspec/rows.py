"""The logical rows of a table (HTML grid semantics).

A row which contains header cells (th) is a header row and is reported as is.
Any other row is reported with one cell per logical column group: its own
cells plus, at their column, the cells which span down into it. A row without
any cell of its own has nothing to report.
"""
import copy

from lxml import etree

from .xmlspec import xp


def logical_rows(tbl):
    return [row for _, row in paired_rows(tbl)]


def paired_rows(tbl):
    """[(row of the table, logical row)]"""
    carried = []  # (column, cell, rows left)
    out = []
    for tr in xp(tbl, "./tr"):
        own = xp(tr, "./td")
        if len(xp(tr, "./th")) > 0:
            out.append((tr, tr))
        elif own:
            todo = sorted(carried, key=lambda c: c[0])
            line, col = [], 0
            new = []
            for td in own:
                while todo and todo[0][0] <= col:
                    line.append(todo[0][1])
                    col += int(todo[0][1].get("colspan", 1))
                    todo = todo[1:]
                line.append(td)
                if int(td.get("rowspan", 1)) > 1:
                    new.append((col, td, int(td.get("rowspan"))))
                col += int(td.get("colspan", 1))
            line += [c for _, c, _ in todo]
            row = etree.Element(tr.tag)
            for k, v in tr.attrib.items():
                row.attrib[k] = v
            row.text = tr.text
            for td in line:
                row.append(copy.deepcopy(td))
            out.append((tr, row))
            carried = carried + new
        carried = [(c, e, n - 1) for c, e, n in carried if n > 1]
    return out
