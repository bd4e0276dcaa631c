"""The asio service: timer tasks (C26) and the file logger (C28)."""
import re
from ..rule import *
from ..raft import Entry, lam_entry, uncapture
from .waits import SVC, flush_callbacks, Wakeups, StopProtocol, entry

TASK = ('sym', 'task')
DELAY = ('sym', 'delay')
TCLS = (NS + 'delayed_task', NS + 'delayed_task_scheduler', NS + 'asio_service')


class Svc(Rule):
    plain = True

    def boundary(self, eng, callee):
        cls = callee.get('cls') or ''
        if cls in TCLS and callee['name'] != 'exec':
            return False
        return RaftHooks.boundary(self, eng, callee)


def captured(prog, lam):
    """[(type, by reference, value)] of what a lambda captures"""
    caps = prog.__dict__.get('lamcaps', {}).get(lam[1], [])
    vals = dict(lam[2])
    return [(c.get('t', ''), c.get('byref', False), vals.get(c.get('id'))) for c in caps if 'id' in c]


def owns(prog, st, lam, v):
    """the lambda keeps the object v alive: it holds a shared pointer to it, by value"""
    for t, ref, x in captured(prog, lam):
        if not ref and x is not None and 'ptr<' in t and '*' not in t and 'weak_ptr' not in t and st.facts.decide_eq(x, v) is True:
            return True
    return False


class Schedule(Svc):
    name = 'schedule'
    doc = 'scheduling clears the cancelled mark, sets the timer of that task to the given delay and only then starts one wait on it whose ' \
          'handler keeps the task alive; a timer is created only when the task has none, and registered with what deletes it'
    must_see = ('wait', 'new')

    @classmethod
    def entries(cls, prog, cb, ens):
        return [Entry('schedule', prog.method(NS + 'asio_service', 'schedule'), THIS, (TASK, DELAY), (('ne', TASK, NULL),), kind=('schedule',))]

    # meta: (delay set, waits)
    meta0 = (0, 0)

    def split(self, eng, st):
        c = self.g(eng, st, 'impl_ctx_', TASK)
        return st.meta, c[0] == 'new', st.facts.decide_eq(c, NULL)

    def event(self, eng, st, ev):
        if st.ctl:
            return
        d, w = st.meta
        ctx = self.g(eng, st, 'impl_ctx_', TASK)
        if ev.kind == 'duration' and mentions(ev.args[0], DELAY):
            c, items = lin(ev.args[0])
            u = re.search(r'ratio<(\d+), ?(\d+)', ev.name)
            num, den = (int(u.group(1)), int(u.group(2))) if u else (1, 1)
            if c == 0 and len(items) == 1 and items[0][0] == DELAY and items[0][1] * num * 1000 != den:
                self.bad('unit', ev.site, 'the delay asked for in milliseconds is taken in another unit', st, ev.stack)
        if ev.kind == 'ext' and 'waitable_timer' in ev.name:
            n = ev.name.rsplit('::', 1)[-1]
            mine = st.facts.decide_eq(ev.args[0], ctx) is True
            if not mine:
                self.bad('other', ev.site, 'the timer used is not the one that belongs to the task', st, ev.stack)
            if n in ('expires_after', 'expires_from_now', 'expires_at'):
                if not mentions(ev.args[1], DELAY):
                    self.bad('delay', ev.site, 'the timer is not set to the delay asked for', st, ev.stack)
                st.meta = (1, w)
                if w:
                    self.bad('order', ev.site, 'setting the delay after the wait started ends that wait with an error', st, ev.stack)
            elif n == 'cancel' and w:
                self.bad('order', ev.site, 'the wait just started is cancelled', st, ev.stack)
            elif n == 'async_wait':
                self.ob('wait', ev.site)
                st.meta = (d, min(w + 1, 2))
                if not d:
                    self.bad('undelayed', ev.site, 'the wait starts before the delay is set', st, ev.stack)
                if w:
                    self.bad('twice', ev.site, 'one call starts two waits', st, ev.stack)
                if st.facts.decide_eq(self.g(eng, st, 'cancelled_', TASK), C(0)) is not True:
                    self.bad('cancelled', ev.site, 'the wait starts while the task may be marked as cancelled: it would not run', st, ev.stack)
                if st.facts.decide_eq(ctx, NULL) is not False and ctx[0] != 'new':
                    self.bad('null', ev.site, 'the task may have no timer', st, ev.stack)
                lam = ev.args[1]
                if lam[0] == 'lam' and not owns(self.p, st, lam, TASK):
                    self.bad('lifetime', ev.site, 'the handler of the wait does not keep the task alive', st, ev.stack)
        elif ev.kind == 'write' and ev.name == 'impl_ctx_' and ev.args[0] == TASK:
            self.ob('new', ev.site)
            if st.facts.decide_eq(ev.args[2], NULL) is not True:
                self.bad('lost', ev.site, 'a task that may have a timer gets another one: the first is never released and cannot be cancelled', st, ev.stack)

    def final(self, eng, st):
        if not st.ctl or st.ctl[0] != 'done':
            return
        if not st.meta[1]:
            self.bad('none', self.endsite(), 'a scheduled task is not waited for', st)
        if st.facts.decide_eq(self.g(eng, st, 'cancelled_', TASK), C(0)) is not True:
            self.bad('left', self.endsite(), 'a scheduled task may stay marked as cancelled', st)


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t)


def waits_of(prog):
    """handlers of the waits that schedule starts"""
    found = {}

    class H(Svc):
        def record(self, eng, st, ev):
            if ev.kind == 'ext' and ev.name.endswith('::async_wait'):
                for a in ev.args:
                    if a is not None and a[0] == 'lam':
                        found.setdefault(a[1], a)
    h = H(prog)
    run_rule(prog, h, Schedule.entries(prog, None, None)[0])
    if not found:
        raise AnalysisBroken('schedule starts no wait')
    return [lam_entry(prog, 'timer handler', a, (('sym', 'err'),), (('ne', TASK, NULL),), kind=('expiry',)) for a in found.values()]


class TimerTask(Svc):
    name = 'timer-task'
    doc = 'an expired timer runs its task once unless the task is marked as cancelled, a timer that ended with an error never does; cancelling stops the ' \
          'timer and marks the task; running a task calls its function once with its context; the timer of a task is released once, by what was ' \
          'registered for that, when the task goes away'
    must_see = ('expiry:ran', 'expiry:error', 'expiry:cancelled', 'cancel', 'cancel:none', 'exec:ran', 'gone:freed', 'gone:none', 'keep', 'fresh', 'free')
    vital = {'expiry:ran': 'no expiry runs the task', 'exec:ran': 'running a task calls nothing', 'gone:freed': 'nothing releases the timer of a task',
             'cancel': 'cancelling does not stop the timer', 'free': 'nothing deletes the timer',
             'expiry:error': 'an error does not keep the task from running', 'expiry:cancelled': 'cancelling does not keep the task from running'}
    # meta: calls so far (runs, timer cancels, releases)
    meta0 = (0, 0, 0)

    @classmethod
    def entries(cls, prog, cb, ens):
        out = waits_of(prog)
        S, T = NS + 'delayed_task_scheduler', NS + 'delayed_task'
        out.append(Entry('cancel', prog.method(S, 'cancel'), THIS, (TASK,), (('ne', TASK, NULL),), kind=('cancel',)))
        out.append(Entry('~delayed_task', prog.method(T, '~delayed_task'), THIS, (), kind=('gone',)))
        out.append(Entry('set_impl_context', prog.method(T, 'set_impl_context'), THIS, (('sym', 'ctx'), ('sym', 'del')), kind=('keep',)))
        for f in prog.fns.values():
            if f['q'].startswith(NS + 'timer_task<') and f.get('body') is not None:
                if f['name'] == 'exec':
                    out.append(Entry('exec ' + f['q'][len(NS):], f, THIS, (), kind=('exec',)))
                elif f.get('isctor') and len(f['params']) and not f.get('copy'):
                    out.append(Entry('new ' + f['q'][len(NS):], f, THIS, tuple(('sym', 'arg_%d' % i) for i, _ in enumerate(f['params'])), kind=('ctor',)))
        for f in prog.fns.values():
            if f['q'] == T + '::delayed_task' and not f['params'] and f.get('isctor'):
                out.append(Entry('new delayed_task', f, THIS, (), kind=('ctor',)))
        # what schedule registers to delete the timer
        dels = {}

        class H(Svc):
            def record(self, eng, st, ev):
                if ev.kind == 'write' and ev.name == 'impl_ctx_del_' and ev.args[0] == TASK:
                    dels[ev.args[1]] = 1
        h = H(prog)
        run_rule(prog, h, Schedule.entries(prog, None, None)[0])
        for d in dels:
            f = prog.fns.get(d[1]) if d[0] in ('fnref', 'lam') else None
            if f is not None:
                out.append(Entry('release', f, THIS, (('sym', 'ctx'),), (('ne', ('sym', 'ctx'), NULL),), extra=dict(d[2]) if d[0] == 'lam' else None, kind=('free',)))
        return out

    def split(self, eng, st):
        k = self.en.kind[0]
        if k == 'expiry':
            return st.meta, self.err(st), st.facts.decide_eq(eng.peek(State(), TASK, 'cancelled_', ''), C(1))
        if k == 'cancel':
            return st.meta, st.facts.decide_eq(self.g(eng, st, 'impl_ctx_', TASK), NULL)
        if k == 'gone':
            return st.meta, tuple(st.facts.decide_eq(self.g(eng, st, f), NULL) for f in ('impl_ctx_', 'impl_ctx_del_'))
        if k == 'exec':
            return st.meta, st.facts.decide_eq(self.g(eng, st, 'exec_'), NULL)
        return st.meta

    ERR = ('sym', 'err')

    def err(self, st):
        """True: ended with an error"""
        for t in (('app', 'operator bool', self.ERR), ('app', 'value', self.ERR), self.ERR):
            e = st.facts.decide_eq(t, C(0))
            if e is not None:
                return not e
        return None

    def event(self, eng, st, ev):
        if st.ctl or self.en.kind == ('ctor',):
            return
        r, c, f = st.meta
        if ev.kind == 'write' and ev.name == 'cancelled_' and r and self.en.kind[0] == 'expiry':
            self.bad('after', ev.site, 'the mark of a task is changed after it ran: it may have been scheduled or cancelled again meanwhile', st, ev.stack)
        if ev.kind == 'call' and ev.name == 'delayed_task::exec':
            st.meta = (min(r + 1, 2), c, f)
            if ev.args[0] != TASK:
                self.bad('whose', ev.site, 'the task that is run is not the one whose timer expired', st, ev.stack)
        elif ev.kind == 'ext' and 'waitable_timer' in ev.name and ev.name.rsplit('::', 1)[-1] in ('cancel', 'cancel_one'):
            if self.en.kind[0] == 'cancel' and st.facts.decide_eq(ev.args[0], self.g(eng, st, 'impl_ctx_', TASK)) is True:
                st.meta = (r, 1, f)
        elif ev.kind == 'invoke' and self.en.kind[0] == 'gone':
            st.meta = (r, c, min(f + 1, 2))
            if st.facts.decide_eq(ev.args[0], self.g(eng, st, 'impl_ctx_del_')) is not True or \
                    st.facts.decide_eq(ev.args[1], self.g(eng, st, 'impl_ctx_')) is not True:
                self.bad('wrong', ev.site, 'what is released is not the timer of the task', st, ev.stack)
        elif ev.kind == 'invoke' and self.en.kind[0] == 'exec':
            st.meta = (min(r + 1, 2), c, f)
            if st.facts.decide_eq(ev.args[0], self.g(eng, st, 'exec_')) is not True:
                self.bad('wrong', ev.site, 'what is called is not the function of the task', st, ev.stack)
            if len(ev.args) > 1 and st.facts.decide_eq(ev.args[1], self.g(eng, st, 'ctx_')) is False:
                self.bad('wrong', ev.site, 'the function of the task does not get its context', st, ev.stack)
        elif ev.kind == 'delete' and self.en.kind[0] == 'free':
            st.meta = (r, c, min(f + 1, 2))
            if st.facts.decide_eq(ev.args[0], ('sym', 'ctx')) is not True:
                self.bad('wrong', ev.site, 'what is deleted is not the timer', st, ev.stack)

    def final(self, eng, st):
        if not st.ctl or st.ctl[0] != 'done':
            return
        site = self.endsite()
        k = self.en.kind[0]
        r, c, f = st.meta
        if k == 'expiry':
            e, can = self.err(st), st.facts.decide_eq(eng.peek(State(), TASK, 'cancelled_', ''), C(1))
            if r:
                self.ob('expiry:ran', site)
                if e is not False:
                    self.bad('error', site, 'a task runs although its timer may have ended with an error', st)
                if can is not False:
                    self.bad('cancelled', site, 'a task runs although it may have been cancelled', st)
                if r > 1:
                    self.bad('twice', site, 'one expiry runs a task twice', st)
            elif e is True:
                self.ob('expiry:error', site)
            elif can is True:
                self.ob('expiry:cancelled', site)
            else:
                self.bad('dropped', site, 'a task whose timer expired and which is not cancelled may not run', st)
        elif k == 'cancel':
            if st.facts.decide_eq(self.g(eng, st, 'cancelled_', TASK), C(1)) is not True:
                self.bad('unmarked', site, 'a cancelled task is not marked: it runs when its timer has expired already', st)
            if c:
                self.ob('cancel', site)
            else:
                self.ob('cancel:none', site)
                if st.facts.decide_eq(self.g(eng, st, 'impl_ctx_', TASK), NULL) is not True:
                    self.bad('unstopped', site, 'the timer of a cancelled task may go on', st)
        elif k == 'gone':
            x = st.facts.decide_eq(self.g(eng, st, 'impl_ctx_'), NULL)
            d = st.facts.decide_eq(self.g(eng, st, 'impl_ctx_del_'), NULL)
            if f:
                self.ob('gone:freed', site)
                if f > 1:
                    self.bad('twice', site, 'the timer of a task is released twice', st)
                if d is not False:
                    self.bad('empty', site, 'the timer of a task may be released with a function that is not there', st)
            else:
                self.ob('gone:none', site)
                if x is not True and d is not True:
                    self.bad('leak', site, 'the timer of a task is not released', st)
        elif k == 'keep':
            self.ob('keep', site)
            for n, v in zip(('impl_ctx_', 'impl_ctx_del_'), self.en.vals):
                if st.facts.decide_eq(self.g(eng, st, n), v) is not True:
                    self.bad('keep:' + n, site, 'the timer or what releases it is not kept', st)
        elif k == 'exec':
            if r:
                self.ob('exec:ran', site)
                if r > 1:
                    self.bad('twice', site, 'the function of a task is called twice', st)
            elif st.facts.decide_eq(self.g(eng, st, 'exec_'), NULL) is not True:
                self.bad('dropped', site, 'the function of a task is not called', st)
            if st.facts.decide_eq(self.g(eng, st, 'exec_'), ('fld', THIS, 'exec_')) is False:
                self.bad('spent', site, 'a task that ran has lost its function: scheduled again it would do nothing', st)
        elif k == 'free':
            self.ob('free', site)
            if f != 1:
                self.bad('free', site, 'the timer is %s' % ('deleted twice' if f else 'not deleted'), st)
        elif k == 'ctor':
            self.ob('fresh', site)
            if self.en.name == 'new delayed_task':
                if st.facts.decide_eq(self.g(eng, st, 'cancelled_'), C(0)) is not True or st.facts.decide_eq(self.g(eng, st, 'impl_ctx_'), NULL) is not True:
                    self.bad('fresh', site, 'a new task is marked as cancelled or has a timer', st)
            elif st.facts.decide_eq(self.g(eng, st, 'exec_'), self.en.vals[0]) is not True:
                self.bad('kept', site, 'a new task does not keep its function', st)


# ---------------------------------------------------------------- C28
FLOG = NS + 'impls::fs_based_logger'
LINE = ('sym', 'line')
LEVELS = (('debug', 0), ('info', 1), ('warn', 2), ('err', 3))


class LogLine(Rule):
    name = 'log-level'
    doc = 'a line logged at or above the configured level is put at the end of the buffer once, under its lock, any other line is not'
    must_see = ('kept', 'dropped')
    plain = True
    logs = True
    # meta: (lines put, the text was used)
    meta0 = (0, 0)

    @classmethod
    def entries(cls, prog, cb, ens):
        return [Entry('log:' + n, prog.method(FLOG, n), THIS, (LINE,), kind=('log', r)) for n, r in LEVELS]

    def boundary(self, eng, callee):
        return False

    def split(self, eng, st):
        return st.meta, st.facts.decide_le(self.g(eng, st, 'level_'), C(self.en.kind[1]))

    def event(self, eng, st, ev):
        if st.ctl:
            return
        n, u = st.meta
        if ev.kind == 'cont' and ev.args[0] == ('sub', THIS, 'buffer_'):
            if ev.name in ('push', 'push_back') or ev.name.startswith('emplace'):
                st.meta = (min(n + 1, 2), u)
                if not any(x == ('sub', THIS, 'lock_') for x, _ in st.locks):
                    self.bad('lock', ev.site, 'a line is put into the buffer without its lock', st, ev.stack)
                if not u and not any(mentions(a, LINE) for a in ev.args[1:2]):
                    self.bad('text', ev.site, 'the text that was logged is not part of the line', st, ev.stack)
            elif ev.name in ('pop', 'clear', 'swap', 'front', 'back'):
                self.bad('other', ev.site, 'logging a line changes other lines', st, ev.stack)
        elif ev.kind in ('ext', 'strctor', 'call') and any(mentions(a, LINE) for a in ev.args if a is not None):
            st.meta = (n, 1)

    def final(self, eng, st):
        if not st.ctl or st.ctl[0] != 'done':
            return
        site = self.endsite()
        on = st.facts.decide_le(self.g(eng, st, 'level_'), C(self.en.kind[1]))
        self.ob('kept' if st.meta[0] else 'dropped', site)
        if st.meta[0] > 1:
            self.bad('twice', site, 'a line is put into the buffer twice', st)
        elif st.meta[0] and on is not True:
            self.bad('below', site, 'a line below the configured level is kept', st)
        elif not st.meta[0] and on is not False:
            self.bad('lost', site, 'a line at or above the configured level is not kept', st)


class Drain(Rule):
    name = 'log-drain'
    doc = 'flushing or destroying a logger takes all buffered lines, under the lock, and writes each of them once, in order, to the file'
    must_see = ('written', 'empty')
    plain = True
    # meta: (queue the lines were taken into, times the first line was written)
    meta0 = (0, 0)

    @classmethod
    def entries(cls, prog, cb, ens):
        return [Entry(n, prog.method(FLOG, n), THIS, (), kind=('drain', n)) for n in ('flush', '~fs_based_logger')]

    def boundary(self, eng, callee):
        return False

    BUF = ('sub', THIS, 'buffer_')

    def split(self, eng, st):
        return st.meta, st.facts.decide_eq(eng.csize(st, self.BUF), C(0))

    def queue(self, st):
        q = st.store.get((THIS, '#taken'))
        return self.BUF if q is None else q

    def event(self, eng, st, ev):
        if st.ctl:
            return
        t, w = st.meta
        if ev.kind == 'cont' and self.BUF in ev.args:
            if not any(x == ('sub', THIS, 'lock_') for x, _ in st.locks):
                self.bad('lock', ev.site, 'the buffer is used without its lock', st, ev.stack)
            if len(ev.args) > 1 and ev.args[1] is not None and ev.args[0] != ev.args[1] and ev.name in ('swap', 'assign', 'operator=', 'move'):
                if ev.name != 'swap' and ev.args[0] == self.BUF:
                    if not t and not self.drained(eng, st):
                        self.bad('unwritten', ev.site, 'lines are dropped without having been written', st, ev.stack)
                    return
                self.ob('taken', ev.site)
                if t:
                    self.bad('again', ev.site, 'lines are taken again before those taken are written', st, ev.stack)
                st.set((THIS, '#taken'), ev.args[1] if ev.args[0] == self.BUF else ev.args[0])
                st.meta = (1, 0)
                return
        if ev.kind == 'cont' and ev.args[0] == self.queue(st):
            if ev.name == 'pop':
                self.ob('written', ev.site)
                if w == 0:
                    self.bad('unwritten', ev.site, 'a line is dropped without having been written', st, ev.stack)
                elif w > 1:
                    self.bad('twice', ev.site, 'a line is written twice', st, ev.stack)
                st.meta = (t, 0)
            elif ev.name == 'clear':
                self.bad('unwritten', ev.site, 'lines are dropped without having been written', st, ev.stack)
        elif ev.kind == 'ext' and len(ev.args) > 1 and any(is_line(a, self.queue(st)) for a in ev.args[1:] if a is not None) and mentions(ev.args[0], ('sub', THIS, 'fs_')):
            a = [x for x in ev.args[1:] if x is not None and is_line(x, self.queue(st))][0]
            if a[-1] != C(0) and a[-1] != ('c', 0):
                self.bad('order', ev.site, 'lines are not written in the order they came', st, ev.stack)
            st.meta = (t, min(w + 1, 2))
        elif ev.kind == 'ext' and ev.name.endswith('::close') and ev.args and ev.args[0] == ('sub', THIS, 'fs_'):
            if not self.drained(eng, st):
                self.bad('closed', ev.site, 'the file is closed before all lines are written', st, ev.stack)

    def drained(self, eng, st):
        q = self.queue(st)
        return st.facts.decide_eq(eng.csize(st, q), C(0)) is True

    def final(self, eng, st):
        if not st.ctl or st.ctl[0] != 'done':
            return
        self.ob('empty', self.endsite())
        if not self.drained(eng, st):
            self.bad('left', self.endsite(), 'lines may be left that were not written', st)
        if st.meta[1]:
            self.bad('stuck', self.endsite(), 'a line that was written may be written again', st)


def is_line(t, q):
    """an element of the queue"""
    return isinstance(t, tuple) and len(t) > 2 and t[0] in ('app', 'elem') and (t[1] == 'elem' and t[2] == q or t[0] == 'elem' and t[1] == q)


class FlushAll(Rule):
    name = 'log-flush-all'
    doc = 'every logger is registered with the service under the lock of the list when it is created; the final flush, which is reported to stop, flushes all of '           'them, under that lock, after the service was seen to be stopping'
    must_see = ('registered', 'reported', 'list')
    vital = {'registered': 'loggers are not registered with the service', 'reported': 'nothing reports the final flush'}
    plain = True
    meta0 = 0

    @classmethod
    def entries(cls, prog, cb, ens):
        f = prog.method(NS + 'asio_service', 'create_logger')
        return [Entry('create_logger', f, THIS, (('sym', 'level'), ('sym', 'file')), kind=('create',))] + flush_callbacks(prog)

    def boundary(self, eng, callee):
        return callee.get('cls') == FLOG and callee['name'] == 'flush'

    def split(self, eng, st):
        return st.meta

    def on_lock(self, eng, st, m, mode, t, e):
        if m[0] == 'sub' and m[2] == 'stopping_lock_':
            st.meta = 1

    def held(self, st, n):
        return any(x[0] == 'sub' and x[2] == n for x, _ in st.locks)

    def event(self, eng, st, ev):
        if st.ctl:
            return
        if ev.kind == 'cont' and ev.args[0][0] == 'sub' and ev.args[0][2] == 'loggers_':
            c = ev.args[0]
            self.ob('list', ev.site)
            if not self.held(st, 'logger_list_lock_'):
                self.bad('lock', ev.site, 'the list of loggers is used without its lock', st, ev.stack)
            if self.en.kind[0] == 'create' and (ev.name in ('push', 'push_back', 'push_front', 'insert') or ev.name.startswith('emplace')):
                st.set((THIS, '#reg'), ev.args[1])
            if self.en.kind[0] == 'flush' and ev.name in ('erase', 'clear', 'pop', 'pop_front', 'pop_back', 'remove', 'remove_if'):
                self.bad('dropped', ev.site, 'a flush removes loggers from the list', st, ev.stack)
        elif ev.kind == 'call' and ev.name.endswith('fs_based_logger::flush'):
            x = ev.args[0]
            if not self.held(st, 'logger_list_lock_'):
                self.bad('lock', ev.site, 'a logger is flushed without the lock of the list: two flushes can overtake each other', st, ev.stack)
            if x[0] == 'app' and x[1] == 'elem' and st.meta:
                eng.cover(st, 'flushed', x[2], x[4])
        elif ev.kind == 'write' and ev.name == 'flushed_' and ev.args[1] == C(1):
            self.ob('reported', ev.site)
            if not eng.covered_all(st, 'flushed', ('sub', ev.args[0], 'loggers_')):
                self.bad('unflushed', ev.site, 'the final flush is reported although a logger may not have been flushed since the service is stopping', st, ev.stack)

    def final(self, eng, st):
        if not st.ctl or st.ctl[0] != 'done' or self.en.kind[0] != 'create':
            return
        v, site = st.ctl[1], self.endsite()
        r = st.store.get((THIS, '#reg'))
        self.ob('registered', site)
        if r is None or st.facts.decide_eq(r, v) is not True:
            self.bad('unregistered', site, 'the logger handed out is not registered with the service', st)
        elif v[0] == 'new':
            if st.facts.decide_eq(self.g(eng, st, 'level_', v), self.en.vals[0]) is not True:
                self.bad('level', site, 'the logger does not get the level asked for', st)


class FlushWait(Wakeups):
    name = 'stop-waits'
    doc = 'stop waits, under the mutex of the service, until the final flush has been reported, and the report wakes it'
    must_see = ('wait:service stop', 'set:service stop', 'after:service stop')
    vital = {'set:service stop': 'nothing reports the final flush'}

    @classmethod
    def entries(cls, prog, cb, ens):
        return [entry(prog.method(SVC, 'stop'), ('svc', 'stop'))] + flush_callbacks(prog)


class StopFlushes(StopProtocol):
    name = 'stop-flushes'
    must_see = ('cancel', 'rearm', 'report')
    vital = {k: v for k, v in StopProtocol.vital.items() if k != 'ask'}

    @classmethod
    def entries(cls, prog, cb, ens):
        return FlushWait.entries(prog, cb, ens)


RULES = [Schedule, TimerTask, LogLine, Drain, FlushAll, FlushWait, StopFlushes]
