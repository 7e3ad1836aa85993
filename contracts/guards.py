"""C04: DELETE and UPDATE without WHERE."""
from vlib import *  # noqa
from sqlpuzzle.exceptions import ConfirmDeleteAllException, ConfirmUpdateAllException, InvalidArgumentException
from contracts.common import cond_text

LAST = Choice('none', 'allow', 'forbid', 'allow-forbid', 'forbid-allow', 'allow-allow')


def switch(q, last, allow, forbid):
    """Apply a history of allow/forbid calls."""
    if last == 'allow':
        allow()
    elif last == 'forbid':
        forbid()
    elif last == 'allow-forbid':
        allow()
        forbid()
    elif last == 'forbid-allow':
        forbid()
        allow()
    elif last == 'allow-allow':
        allow()
        allow()


def permitted(last):
    return last in ('allow', 'forbid-allow', 'allow-allow')


def new_delete():
    return sqlpuzzle.delete_from(sqlpuzzle.C('t'))


def new_update():
    return sqlpuzzle.update(sqlpuzzle.C('t')).set(sqlpuzzle.C('a=1'))


def check_delete(q, allowed, where, label):
    try:
        text = str(q)
    except ConfirmDeleteAllException:
        check(not allowed and where is None, label + ': refused only without condition and permission')
        return
    check(allowed or where is not None, label + ': rendered only with condition or permission')
    check_eq(text, 'DELETE FROM t' if where is None else ('DELETE FROM t WHERE ' + where).strip(), label + ': text')


def check_update(q, allowed, where, label):
    try:
        text = str(q)
    except ConfirmUpdateAllException:
        check(not allowed and where is None, label + ': refused only without condition and permission')
        return
    check(allowed or where is not None, label + ': rendered only with condition or permission')
    check_eq(text, 'UPDATE t SET a=1' if where is None else ('UPDATE t SET a=1 WHERE ' + where).strip(), label + ': text')


@prop('C04', sym={'conds': Seq(Tup(STR, INT))})
def delete_guard(conds: Seq(Tup(NAME, COND)), last: LAST):
    """Any number of conditions, any history of allow/forbid calls."""
    q = new_delete()
    switch(q, last, q.allow_delete_all, q.forbid_delete_all)
    q.where(conds)
    if not conds:
        check_delete(q, permitted(last), None, 'no condition')
    else:
        check_eq(str(q), ('DELETE FROM t WHERE ' + str(sqlpuzzle.Q(conds))).strip(), 'conditions follow WHERE')


@prop('C04', sym={'conds': Seq(Tup(STR, INT))})
def update_guard(conds: Seq(Tup(NAME, COND)), last: LAST):
    q = new_update()
    switch(q, last, q.allow_update_all, q.forbid_update_all)
    q.where(conds)
    if not conds:
        check_update(q, permitted(last), None, 'no condition')
    else:
        check_eq(str(q), ('UPDATE t SET a=1 WHERE ' + str(sqlpuzzle.Q(conds))).strip(), 'conditions follow WHERE')


def quietly(f):
    try:
        f()
    except Exception:  # pylint: disable=broad-except
        pass


DELETE_STEPS = Choice('where()', 'where([])', 'where(())', 'where({})', 'where**', 'from_', 'from_()', 'from_table', 'delete', 'join', 'left_join', 'right_join', 'inner_join',
                      'on', 'ignore', 'ignore_off', 'str', 'repr', 'has', 'hasw', 'eq', 'hash', 'copy', 'tosql', 'badwhere')


def delete_step(q, step, x):
    if step == 'where()':
        q.where()
    elif step == 'where([])':
        q.where([])
    elif step == 'where(())':
        q.where(())
    elif step == 'where({})':
        q.where({})
    elif step == 'where**':
        q.where(**{})
    elif step == 'from_':
        q.from_(x)
    elif step == 'from_()':
        q.from_()
    elif step == 'from_table':
        q.from_table('t2', 'x')
    elif step == 'delete':
        q.delete(x)
    elif step == 'join':
        q.join('j')
    elif step == 'left_join':
        q.left_join('j')
    elif step == 'right_join':
        q.right_join('j')
    elif step == 'inner_join':
        q.inner_join('j')
    elif step == 'on':
        q.join('j').on('a', 'b')
    elif step == 'ignore':
        q.ignore()
    elif step == 'ignore_off':
        q.ignore(False)
    elif step == 'str':
        quietly(lambda: str(q))
    elif step == 'repr':
        quietly(lambda: repr(q))
    elif step == 'tosql':
        quietly(q.tosql)
    elif step == 'has':
        q.has('where')
    elif step == 'hasw':
        q.has('tables')
    elif step == 'eq':
        q == new_delete()
    elif step == 'hash':
        hash(q)
    elif step == 'copy':
        q.copy()
    elif step == 'badwhere':
        quietly(lambda: q.where(x, set()))


@prop('C04')
def delete_permission_is_stable(last: LAST, step: DELETE_STEPS, x: STR):
    """No other call changes the permission to delete everything."""
    q = new_delete()
    switch(q, last, q.allow_delete_all, q.forbid_delete_all)
    delete_step(q, step, x)
    try:
        text = str(q)
    except ConfirmDeleteAllException:
        check(not permitted(last), 'permission lost')
        return
    check(permitted(last), 'permission gained')
    check(text.startswith('DELETE'), 'text')


@prop('C04')
def delete_permission_two_steps(last: Choice('none', 'allow', 'forbid', 'allow-forbid'), s1: DELETE_STEPS, s2: DELETE_STEPS):
    q = new_delete()
    switch(q, last, q.allow_delete_all, q.forbid_delete_all)
    delete_step(q, s1, 'x')
    delete_step(q, s2, 'y')
    c = q.copy()
    for obj in (q, c):
        try:
            str(obj)
        except ConfirmDeleteAllException:
            check(not permitted(last), 'permission lost')
            continue
        check(permitted(last), 'permission gained')


UPDATE_STEPS = Choice('where()', 'where([])', 'where(())', 'where({})', 'where**', 'table', 'set', 'set2', 'join', 'left_join', 'right_join', 'inner_join',
                      'on', 'ignore', 'ignore_off', 'str', 'repr', 'has', 'hasw', 'eq', 'hash', 'copy', 'tosql', 'badwhere')


def update_step(q, step, x):
    if step == 'where()':
        q.where()
    elif step == 'where([])':
        q.where([])
    elif step == 'where(())':
        q.where(())
    elif step == 'where({})':
        q.where({})
    elif step == 'where**':
        q.where(**{})
    elif step == 'table':
        q.table(x)
    elif step == 'set':
        q.set(x, 1)
    elif step == 'set2':
        q.set(a=1, b=None)
    elif step == 'join':
        q.join('j')
    elif step == 'left_join':
        q.left_join('j')
    elif step == 'right_join':
        q.right_join('j')
    elif step == 'inner_join':
        q.inner_join('j')
    elif step == 'on':
        q.join('j').on('a', 'b')
    elif step == 'ignore':
        q.ignore()
    elif step == 'ignore_off':
        q.ignore(False)
    elif step == 'str':
        quietly(lambda: str(q))
    elif step == 'repr':
        quietly(lambda: repr(q))
    elif step == 'tosql':
        quietly(q.tosql)
    elif step == 'has':
        q.has('where')
    elif step == 'hasw':
        q.has('tables')
    elif step == 'eq':
        q == new_update()
    elif step == 'hash':
        hash(q)
    elif step == 'copy':
        q.copy()
    elif step == 'badwhere':
        quietly(lambda: q.where(x, set()))


@prop('C04')
def update_permission_is_stable(last: LAST, step: UPDATE_STEPS, x: STR):
    q = new_update()
    switch(q, last, q.allow_update_all, q.forbid_update_all)
    update_step(q, step, x)
    try:
        text = str(q)
    except ConfirmUpdateAllException:
        check(not permitted(last), 'permission lost')
        return
    check(permitted(last), 'permission gained')
    check(text.startswith('UPDATE'), 'text')


@prop('C04')
def update_permission_two_steps(last: Choice('none', 'allow', 'forbid', 'allow-forbid'), s1: UPDATE_STEPS, s2: UPDATE_STEPS):
    q = new_update()
    switch(q, last, q.allow_update_all, q.forbid_update_all)
    update_step(q, s1, 'x')
    update_step(q, s2, 'y')
    c = q.copy()
    for obj in (q, c):
        try:
            str(obj)
        except ConfirmUpdateAllException:
            check(not permitted(last), 'permission lost')
            continue
        check(permitted(last), 'permission gained')


@prop('C04')
def delete_where_is_rendered(last: LAST, col: NAME, value: COND, shape: Choice('args', 'tuple', 'dict', 'Q', 'C', 'Not', 'kwds')):
    """One condition in any shape, with or without permission: the statement ends with it."""
    q = new_delete()
    switch(q, last, q.allow_delete_all, q.forbid_delete_all)
    w = give_where(q, col, value, shape)
    check_eq(str(q), ('DELETE FROM t WHERE ' + w).strip(), 'delete with condition')
    q.forbid_delete_all()
    check_eq(str(q), ('DELETE FROM t WHERE ' + w).strip(), 'condition needs no permission')


@prop('C04')
def update_where_is_rendered(last: LAST, col: NAME, value: COND, shape: Choice('args', 'tuple', 'dict', 'Q', 'C', 'Not', 'kwds')):
    q = new_update()
    switch(q, last, q.allow_update_all, q.forbid_update_all)
    w = give_where(q, col, value, shape)
    check_eq(str(q), ('UPDATE t SET a=1 WHERE ' + w).strip(), 'update with condition')
    q.forbid_update_all()
    check_eq(str(q), ('UPDATE t SET a=1 WHERE ' + w).strip(), 'condition needs no permission')


def give_where(q, col, value, shape):
    if shape == 'args':
        q.where(col, value)
    elif shape == 'tuple':
        q.where([(col, value)])
    elif shape == 'dict':
        assume(isinstance(col, str))
        q.where({col: value})
    elif shape == 'Q':
        q.where(sqlpuzzle.Q(col, value))
    elif shape == 'C':
        q.where(sqlpuzzle.C('x > 1'))
        return 'x > 1'
    elif shape == 'Not':
        q.where(sqlpuzzle.Not(col, value))
        return 'NOT(' + cond_text(col, value) + ')'
    else:
        q.where(kw=value)
        return cond_text('kw', value)
    return cond_text(col, value)
