from recap_analysis import hook
def SchemaRegistryClient(conf, *a, **k):
    return hook("csr.client", conf, *a, **k)
