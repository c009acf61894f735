from recap_analysis import hook
def connect(*a, **k):
    return hook("snowflake.connect", *a, **k)
