"""Reading the solution database the way a user does; shared by C19, C20, C21, C22, C26."""
import os, re
import lib


def names():
    """problem files on disk"""
    return sorted(x[:-3] for x in os.listdir(os.path.join(lib.REPO, 'srg', 'database')) if re.fullmatch(r'problem_.*\.py', x))


def numbers(name): return tuple(int(x) for x in name.split('_')[1:])


def solutions(name):
    from srg import database
    return database.get_solutions(*numbers(name))


def module(name):
    import importlib
    return importlib.import_module('srg.database.' + name)


def says_first_only(name):
    return 'only list the first' in ' '.join((module(name).__doc__ or '').lower().split())
