"""property id -> driver"""
EXPLORE = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
           "C17", "C23", "C24", "C26", "C28", "C29"}


def run(prop, tier, res, args):
    if prop in EXPLORE:
        import explore
        return explore.run(prop, tier, res, args)
    import importlib
    mod = importlib.import_module("probe_" + prop.lower())
    return mod.run(tier, res, args)
