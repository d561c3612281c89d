"""Runs sus-tool.py with its real argument parser on arbitrary argument texts, over a file system and a Bitcoin node of our own."""
import argparse, sys, types
import os

class Exit(Exception):
    """the program ended with an error"""

class File:
    def __init__(self, fs, name, mode): self.fs = fs; self.name = name; self.mode = mode; self.pos = 0
    def write(self, b):
        if 'r' in self.mode: raise OSError('not writable')
        self.fs[self.name] = self.fs[self.name] + bytes(b)
        return len(b)
    def read(self, n=-1):
        if 'r' not in self.mode: raise OSError('not readable')
        b = self.fs[self.name][self.pos:] if n < 0 else self.fs[self.name][self.pos:self.pos + n]
        self.pos += len(b)
        return b
    def flush(self): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass

def opener(fs):
    def op(name, mode='r', *a, **k):
        if 'x' in mode:
            if name in fs: raise FileExistsError(name)
            fs[name] = b''
        elif 'w' in mode: fs[name] = b''
        elif name not in fs: raise FileNotFoundError(name)
        return File(fs, name, mode)
    return op

def run(env, argv, fs, values=None, node=None):
    """run the program; values maps argument words to arbitrary texts. -> (None or the Exit, printed lines)"""
    values = values or {}
    out = []
    class Parser(argparse.ArgumentParser):
        def parse_args(self, args=None, namespace=None): return argparse.ArgumentParser.parse_args(self, argv if args is None else args, namespace)
        def _get_value(self, action, arg): return argparse.ArgumentParser._get_value(self, action, values[arg] if arg in values and not isinstance(action, argparse._SubParsersAction) else arg)
        def exit(self, status=0, message=None): raise Exit('exit')
        def error(self, message): raise Exit('error')
    def file_type(mode='r', *a, **k):
        op = opener(fs)
        def get(name):
            try: return op(name, mode)
            except OSError as e: raise argparse.ArgumentTypeError('cannot open')
        return get
    shim = types.ModuleType('argparse')
    for k in dir(argparse):
        if not k.startswith('__'): setattr(shim, k, getattr(argparse, k))
    shim.ArgumentParser = Parser; shim.FileType = file_type
    class Node:
        def __init__(self, *a, **k): pass
        def getrawtransaction(self, txid, *a): return node(txid)
    env.patch(env.mod('bitcoin.rpc'), 'Proxy', Node)
    B = env.mod('bitcoin'); C = env.mod('bitcoin.core')
    env.patch(B, 'params', B.params); env.patch(C, 'coreparams', C.coreparams)
    def pr(*a, **k): out.append(a[0] if a else '')
    try: env.script('sus-tool.py', {'argparse': shim}, {'print': pr, 'open': opener(fs)})
    except Exit as e: return e, out
    except SystemExit as e: return Exit('exit'), out
    return None, out
