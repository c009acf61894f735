from recap_analysis import hook
def print(*a, **k):
    return hook("rich.print", *a, **k)
def print_json(*a, **k):
    return hook("rich.print_json", *a, **k)
