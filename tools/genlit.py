#!/usr/bin/env python3
"""Writes harness/src/literals.rs: tree literals of every shape of at most 5 nodes (the macros
cannot be expanded at run time). Which shapes there have to be, and what they mean, is decided by
the specification: the driver looks the literals up by the parent vectors that TLC prints."""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def vectors(n):
    if n == 1:
        yield (0,)
        return
    for p in vectors(n - 1):
        x = n - 1
        while x:
            yield p + (x,)
            x = p[x - 1]


def node(par, x, style, counter, depth):
    kids = [i + 1 for i, p in enumerate(par) if p == x]
    if not kids:
        counter[0] += 1
        return f"/(p({x}), [])" if style == 1 or (style == 2 and counter[0] % 2) else f"p({x})"
    return "/(p(%d), %s)" % (x, lst(par, kids, style, counter, depth))


def lst(par, kids, style, counter, depth):
    items = ", ".join(node(par, k, style, counter, depth + 1) for k in kids)
    comma = "," if kids and (style == 0 or (style == 2 and depth % 2)) else ""
    return "[" + items + comma + "]"


out = ["// Written by tools/genlit.py.", "use crate::util::Payload;", "use dendron::*;", "",
       "fn p(v: i64) -> Payload {", "    Payload::new(v)", "}", "",
       "pub struct Literal {", "    pub par: &'static [usize],", "    pub node: fn() -> Node<Payload>,", "    pub tree: fn() -> Tree<Payload>,", "}", "",
       "pub const LITERALS: &[Literal] = &["]
for n in range(1, 6):
    for par in vectors(n):
        for style in range(4):
            kids = [i + 1 for i, q in enumerate(par) if q == 1]
            c = [0]
            if not kids and style in (0, 3):
                body = "p(1)"
            else:
                body = "p(1), " + lst(par, kids, style % 3, c, 1) + ("," if style == 0 else "")
                if not kids and style == 1:
                    body = "p(1), []"
            out.append(f"    Literal {{ par: &{list(par)}, node: || tree_node! {{ {body} }}, tree: || tree! {{ {body} }} }},")
out.append("];")
open(os.path.join(ROOT, "harness/src/literals.rs"), "w").write("\n".join(out) + "\n")
