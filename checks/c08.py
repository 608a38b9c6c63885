"""C08: error codes"""
from . import numbering
from .common import *


def run(rep):
    cs = Cases()
    numbering.sweep(rep, cs, 'C08', 24 if rep.tier == 'quick' else 250, rep.seed + 50)
    cs.into(rep, 'random forests of interfaces over 1-3 files; every error constant (own and inherited) is evaluated in C, C++, Rust and Java; non-trivial: not the first code',
            'forests of at most 15 interfaces')
    rep.level = 'exploration'
