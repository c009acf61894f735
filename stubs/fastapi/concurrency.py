from asyncio import to_thread as run_in_threadpool
