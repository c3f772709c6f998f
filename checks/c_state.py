"""Checks over object histories: copies (C22) and reinitialisation (C27)."""
from . import check, core, q, with_selftest
from .c_func import huge_jobs
Job = core.Job
PARTS = ('hash', 'mac', 'hkdf', 'pbkdf2', 'cipher')


def object_jobs(pid):
    return [Job('object.' + n, 'd_object.cpp', flags=['-O1'], defs=['PART=%d' % i], env={'VH_PREFIX': pid + '.'}) for i, n in enumerate(PARTS)]


@check('C22')
def c22(ctx):
    with_selftest(ctx, object_jobs('C22') + huge_jobs('C22', sorted(set(q((0, 2, 4), range(7))) | {7})))
    return ('a random history of 30 to 60 operations on five storage places (construct over garbage, copy, move, assign, self assign, swap, pass by value, hold in containers, initialise, use, destroy), '
            'every output compared with a model of each object; and copies, assignments and moves in the middle of messages and keystreams of more than 2^32 bytes; distinct by the sequence of operations', ['a moved-from object may only be assigned to, initialised or destroyed'])


@check('C27')
def c27(ctx):
    with_selftest(ctx, object_jobs('C27') + huge_jobs('C27', sorted(set(q((0, 2, 4), range(7))) | {7})))
    return ('a random history of calls on one object with one to five initialisations in it, also after more than 2^32 bytes of earlier use, every output compared with a model that forgets everything at each initialisation; distinct by the sequence of call counts', [])
