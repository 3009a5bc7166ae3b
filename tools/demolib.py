"""Helper of the demonstrations: runs under Jython with cwd /repo and stands
in for the third party libraries which are not installed."""
import sys
import os
import types
sys.dont_write_bytecode = True
for p in (os.getcwd(), '/opt/jylib'):
    if p not in sys.path:
        sys.path.insert(0, p)


def fake(name, **attrs):
    """Register a fake module (and the packages above it)."""
    parts = name.split('.')
    parent = None
    for i in range(1, len(parts) + 1):
        full = '.'.join(parts[:i])
        if full == 'openquake':
            __import__('openquake')
        if full not in sys.modules:
            m = types.ModuleType(full)
            m.__path__ = []
            sys.modules[full] = m
        if parent is not None:
            setattr(parent, parts[i - 1], sys.modules[full])
        parent = sys.modules[full]
    for k, v in attrs.items():
        setattr(parent, k, v)
    return parent


def same(got, expected, what):
    if got != expected:
        print 'FAILED %s: got %r, expected %r' % (what, got, expected)
        sys.stdout.flush()
        os._exit(1)


def raises(exc, func, *args, **kw):
    try:
        res = func(*args, **kw)
    except exc:
        return
    except Exception as e:
        print 'FAILED: expected %s, got %r' % (exc.__name__, e)
        sys.stdout.flush()
        os._exit(1)
    print 'FAILED: expected %s, got result %r' % (exc.__name__, res)
    sys.stdout.flush()
    os._exit(1)


def stubs():
    """Make the stand-ins in the folder stubs importable"""
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')
    sys.path.insert(1, here)
    import openquake
    openquake.__path__.append(os.path.join(here, 'openquake'))
