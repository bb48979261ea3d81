"""Row predicates of the task table, written from the documentation (independent of the queries)."""
from pyvc.core import z3

And, Or, Not = z3.And, z3.Or, z3.Not

def has(r, c):
    return Not(r.null(c))

def never_scheduled(r):
    return r.null('schedule_time')

def retryable(attempts):
    """failed: completed with non-zero exit status, fewer attempts than allowed, not yet retried"""
    def f(r):
        return And(has(r, 'completion_time'), has(r, 'exit_status'), r.val('exit_status') != 0, r.val('attempt') < attempts, Not(r.val('retried')))
    return f

def interrupted(r):
    """scheduled but neither completed nor cancelled"""
    return And(has(r, 'schedule_time'), r.null('completion_time'), r.null('exit_status'))

def orphaned(client):
    return lambda r: And(interrupted(r), has(r, 'client_id'), r.val('client_id') == client)

def unfinished(r):
    return And(r.null('completion_time'), r.null('exit_status'))
