"""registry of property checks"""
REG = {}


def prop_check(*pids):
    """the function decides obligations of these properties"""
    def deco(f):
        for pid in pids:
            REG.setdefault(pid, []).append(f)
        return f
    return deco
