"""Scratch projects for oracles that need whole documents."""
import atexit, os, pathlib, shutil, tempfile
from common import *
from disseminate.builders import Environment
from disseminate.paths import SourcePath, TargetPath

_root = None
_n = 0


def scratch():
    """a fresh directory, removed when the process ends"""
    global _root, _n
    if _root is None:
        _root = tempfile.mkdtemp(prefix="verif-scratch-")
        atexit.register(shutil.rmtree, _root, True)
    _n += 1
    d = pathlib.Path(_root) / ("p%d" % _n)
    d.mkdir()
    return d


def drop(d):
    shutil.rmtree(str(d), True)


class Env(Environment):
    context = None


def project(files, root="test.dm", d=None):
    """a project from {relative path: text}: -> (environment, root document)"""
    d = d or scratch()
    for p, t in files.items():
        f = d / p
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_text(t)
    src = SourcePath(project_root=d, subpath=root)
    env = Env(src_filepath=src, target_root=TargetPath(target_root=d))
    env.scratch = d
    return env, env.root_document


_shared = None


def shared_context():
    """context of a document in a project with targets html, xhtml, tex"""
    global _shared
    if _shared is None:
        _shared = project({"test.dm": "---\ntargets: html, xhtml, tex\n---\nbody\n"})
    return _shared[1].context
