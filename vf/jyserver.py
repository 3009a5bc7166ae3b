# -*- coding: utf-8 -*-
"""Runs under Jython 2.7 (the interpreter larsbutler/oq-commons is built for).

Line based JSON protocol on stdin/stdout:
  parse  : Python 2 source -> JSON syntax tree (used by the symbolic front end)
  replay : run a harness concretely on the real code (used to confirm
           counterexamples and to validate the encoding)
"""
import sys
import json
import tempfile
import csv
import zipfile
import ConfigParser
import StringIO
import cPickle
import logging
import copy
import decimal
import datetime
import inspect
import collections
import itertools
import operator
import random
import time
import threading
import ast
import os
import imp
import traceback

real_stdout = sys.stdout
ZIPS = []            # the zip files opened by a replay
_zip_init = zipfile.ZipFile.__init__


def _record_zip(self, *a, **k):
    _zip_init(self, *a, **k)
    ZIPS.append(self)
zipfile.ZipFile.__init__ = _record_zip
VERIF = None
REPO = None


def dump(node):
    if isinstance(node, ast.AST):
        d = {'_': node.__class__.__name__}
        for f in (node._fields or ()):
            d[f] = dump(getattr(node, f, None))
        ln = getattr(node, 'lineno', None)
        if ln is not None:
            d['l'] = ln
        return d
    if isinstance(node, (list, tuple)):
        return [dump(x) for x in node]
    if node is None or isinstance(node, bool):
        return node
    if isinstance(node, (int, long)):
        return {'_': '#i', 'v': str(node)}
    if isinstance(node, float):
        return {'_': '#f', 'v': repr(node)}
    if isinstance(node, complex):
        return {'_': '#c', 're': repr(node.real), 'im': repr(node.imag)}
    if isinstance(node, unicode):
        return node
    if isinstance(node, str):
        return node.decode('latin1')
    if str(node) == 'DictComp':      # not exposed by Jython's ast module
        p = _dictcomp()
        return {'_': 'DictComp', 'key': dump(p['internalKey'].invoke(
                    node, [])),
                'value': dump(p['internalValue'].invoke(node, [])),
                'generators': dump(list(p['internalGenerators'].invoke(
                    node, []))),
                'l': p['lineno'].invoke(node, [])}
    return {'_': 'Op', 'n': str(node)}


def _dictcomp(cache=[]):
    if not cache:
        from java.beans import Introspector
        from java.lang import Class
        bi = Introspector.getBeanInfo(
            Class.forName('org.python.antlr.ast.DictComp'))
        cache.append(dict((str(p.getName()), p.getReadMethod())
                          for p in bi.getPropertyDescriptors()))
    return cache[0]


def do_parse(req):
    if 'path' in req:
        f = open(req['path'], 'rb')
        src = f.read()
        f.close()
    else:
        src = req['src'].encode('latin1', 'replace')
    src = src.replace('\r\n', '\n')
    if not src.endswith('\n'):
        src += '\n'
    tree = compile(src, req.get('path', '<exec>').encode('utf8'), 'exec',
                   ast.PyCF_ONLY_AST, 1)
    return {'tree': dump(tree)}


# ------------------------------------------------------------------ replay
_code_cache = {}


def get_code(path):
    st = os.stat(path)
    key = (path, st.st_mtime, st.st_size)
    code = _code_cache.get(key)
    if code is None:
        f = open(path, 'rb')
        src = f.read()
        f.close()
        code = compile(src.replace('\r\n', '\n') + '\n', path, 'exec', 0, 1)
        _code_cache[key] = code
    return code


class Finder(object):
    """Serves the repository modules, the stubs and the stand-ins for the
    environment, and nothing else: everything else is the real library."""
    def __init__(self, modmap, pre):
        self.modmap = modmap          # module name -> path
        self.pre = pre                # names injected in repo modules

    def find_module(self, name, path=None):
        if name in self.modmap:
            return self
        return None

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        path = self.modmap[name]
        mod = imp.new_module(name)
        sys.modules[name] = mod
        if path is None or path.endswith('__init__.py'):
            mod.__path__ = []
            mod.__package__ = name
        mod.__file__ = path or '<namespace>'
        if path is not None:
            for k, v in self.pre.items():
                setattr(mod, k, v)
            try:
                exec get_code(path) in mod.__dict__
            except:
                sys.modules.pop(name, None)
                raise
        return sys.modules.get(name, mod)


class Capture(object):
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass


def native(x):
    """The strings of the parameters are str, as they are for the engine"""
    if isinstance(x, unicode):
        try:
            return str(x)
        except UnicodeError:
            return x
    if isinstance(x, list):
        return [native(y) for y in x]
    if isinstance(x, dict):
        return dict((native(k), native(v)) for k, v in x.items())
    return x


def do_replay(req):
    modmap = req['modmap']
    shadow = req['shadow']
    saved = {}
    for name in list(sys.modules):
        if name in modmap or name in shadow or name.split('.')[0] in (
                'openquake', 'vfharness'):
            saved[name] = sys.modules.pop(name)
    hpath = req['harness']
    cap = Capture()
    sys.stdout = cap
    old_err = sys.stderr
    old_meta = list(sys.meta_path)
    res = {}
    h = None
    try:
        ns = {'__name__': 'vfh_concrete'}
        exec get_code(os.path.join(req['vf'], 'jyapi.py')) in ns
        api = imp.new_module('vfapi')
        h = ns['Harness'](req['inputs'], cap, req.get('salt', 0))
        api.h = h
        sys.modules['vfapi'] = api
        pre = {}
        finder = Finder(modmap, pre)
        sys.meta_path[:] = [finder]
        h._finder = finder
        try:
            hmod = imp.new_module('vfharness')
            hmod.__file__ = hpath
            sys.modules['vfharness'] = hmod
            exec get_code(req['common']) in hmod.__dict__
            exec get_code(hpath) in hmod.__dict__
            fn = getattr(hmod, req['func'])
            fn(h, **native(req['params']))
            res['exc'] = None
        except ns['Stop'], e:
            res['exc'] = None
            res['stopped'] = str(e)
        except:
            et, ev, tb = sys.exc_info()
            try:
                txt = '%s: %s' % (et.__name__, ev)
            except:
                txt = repr(et)
            if isinstance(txt, str):
                txt = txt.decode('utf8', 'replace')
            res['exc'] = txt
            res['tb'] = ''.join(traceback.format_tb(tb))[-2500:].decode(
                'utf8', 'replace')
        res['checks'] = h.checks
        res['reached'] = h.reached
        res['obs'] = h.obs
        res['out'] = ''.join(
            x if isinstance(x, unicode) else str(x).decode('latin1')
            for x in cap.parts)[:2000]
        res['assume_failed'] = h.assume_failed
        res['missing'] = h.missing
    finally:
        sys.stdout = real_stdout
        sys.stderr = old_err
        if h is not None:
            h.cleanup()
        sys.meta_path[:] = old_meta
        for name in list(sys.modules):
            if name in modmap or name in shadow or name.split('.')[0] in (
                    'openquake', 'vfharness', 'vfapi'):
                sys.modules.pop(name, None)
        sys.modules.update(saved)
    return res


def main():
    real_stdout.write(json.dumps({'ready': sys.version}) + '\n')
    real_stdout.flush()
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        req = json.loads(line)
        try:
            if req['cmd'] == 'parse':
                out = do_parse(req)
            elif req['cmd'] == 'replay':
                out = do_replay(req)
            else:
                out = {'error': 'unknown command'}
        except:
            et, ev, tb = sys.exc_info()
            out = {'error': '%s: %s' % (et, ev),
                   'tb': ''.join(traceback.format_tb(tb))[-2000:].decode(
                       'utf8', 'replace')}
        try:
            txt = json.dumps(out)
        except Exception, e:
            txt = json.dumps({'error': 'json: %s' % e})
        real_stdout.write(txt + '\n')
        real_stdout.flush()


if __name__ == '__main__':
    main()
