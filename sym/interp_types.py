def lazy_mnp():
    from . import mnp
    return mnp
