from recap_analysis import hook
def run(*a, **k):
    return hook("uvicorn.run", *a, **k)
