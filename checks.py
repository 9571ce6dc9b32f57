from props import PROPS
CHECKS = {p['id']: p for p in PROPS}
LEVELS = ('exploration', 'fault_enumeration')
