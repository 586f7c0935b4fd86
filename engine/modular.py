"""Summaries of the functions of one program under a chosen set of inlined callees."""
import sys
from . import interp, diff
from .terms import *

class Summ:
    def __init__(self, prog, ref_sem, names, maxpaths=2500, maxsteps=400000, soft=()):
        self.soft = soft
        self.prog = prog; self.S = ref_sem; self.names = names; self.maxpaths = maxpaths; self.maxsteps = maxsteps
        self.cache = {}
    def cut(self, u, f, inline):
        """None: inline"""
        if u in inline: return None
        if u not in self.names: return None                    # helper the reference does not have
        if u in self.S.triv and u not in self.soft: return None
        g = self.S.F.get(u)
        if g is None or 'body' not in g: return None
        return self.S.mode(u)
    def paths(self, u, inline=frozenset(), unroll=0):
        k = (u, inline, unroll)
        if k in self.cache: return self.cache[k]
        rec = bool(unroll) and u in inline
        I = interp.Interp(self.prog, lambda v, g: self.cut(v, g, inline) if v != u else None if rec else self.S.mode(v) if v in self.names else {}, maxpaths=self.maxpaths, maxsteps=self.maxsteps)
        if rec: I.recdepth = 2
        I.vmode = self.S.vmode; I.dynh = self.S.h; I.unroll = unroll; I.undepth = 0
        ENUM.clear()
        try:
            ps = I.analyse(u)
            r = [diff.canon_path(I, I.h, p, False) for p in ps]
            r = [p for p in r if p.facts is not None]
        except interp.Undecided as e: r = str(e)
        except RecursionError: r = 'recursion'
        self.cache[k] = r
        return r
