from recap_analysis import hook
def connect(*a, **k):
    return hook("psycopg2.connect", *a, **k)
