from recap_analysis import hook
async def sleep(delay, result=None):
    hook("env.await", None)
    return result
async def to_thread(fn, *a, **k):
    hook("env.await", None)
    hook("env.thread", True)
    try:
        return fn(*a, **k)
    finally:
        hook("env.thread", False)
        hook("env.await", None)
