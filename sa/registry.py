import importlib
GROUPS = {'S': 'props_arrays', 'W': 'props_wbuf', 'M01': 'props_ros', 'M': 'props_micro', 'X': 'props_tables', 'C': 'props_conf', 'L': 'props_events', 'E': 'props_events', 'B': 'props_bus', 'Q': 'props_effects'}
def run(pid, tier):
    m = importlib.import_module(GROUPS.get(pid) or GROUPS[pid[0]])
    return m.CHECKS[pid](tier)
