PROPERTY = 'U03'
NEEDS = 'many authenticated messages, each just after a fraction of a second'
BREAKS = 'every message that carries the estimated second resets its fraction, so the clock falls behind and old messages stay timely'
EDITS = [
    ('snmp/security/usm/timekeeper.py',
     '                if engineTime > self.snmpEngineTime(timestamp):',
     '                if engineTime >= self.snmpEngineTime(timestamp):'),
]
DEMO = r'''
from demolib import *
from snmp.security.usm.timekeeper import TimeKeeper
tk = TimeKeeper()
check(tk.updateAndVerify(b"e", 1, 1000, 50.0), "first")
for i in range(10):
    # the same second, seen at growing fractions of it
    tk.updateAndVerify(b"e", 1, 1000, 50.9)
check(tk.getEngineTime(b"e", 51.0) == (1, 1001), f"clock is {tk.getEngineTime(b'e', 51.0)}")
check(not tk.updateAndVerify(b"e", 1, 850, 51.0), "151 seconds old is timely")

done()
'''
