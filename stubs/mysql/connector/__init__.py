from recap_analysis import hook
def connect(*a, **k):
    return hook("mysql.connect", *a, **k)
