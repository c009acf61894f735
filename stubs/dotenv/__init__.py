from recap_analysis import hook
def load_dotenv(*a, **k):
    hook("dotenv.load", *a, **k)
    return True
