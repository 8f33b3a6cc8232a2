"""Takes a virtual event loop down at the end of a path. Runs uninstrumented."""
import asyncio
import warnings

warnings.filterwarnings("ignore", message="coroutine .* was never awaited")


def finish(S, hub):
    S.dead(lambda: _finish(hub))


def _finish(hub):
    for u in hub.users:
        if u.started and not u.done:
            u.dead = True
            u.mine.release()
            u.thread.join(10)
    for loop in hub.loops:
        loop.over = True
        for t in list(asyncio.all_tasks(loop)):
            t._log_destroy_pending = False
            try:
                t.get_coro().close()
            except BaseException:
                pass
        loop._ready.clear()
        loop.timers = []
        try:
            loop.close()
        except BaseException:
            pass
    hub.sources = []
    try:
        asyncio.set_event_loop(None)
    except BaseException:
        pass
